// Binds the dispatchers that pytorch3d/csrc/ext.cpp binds, over an
// instrumented build of the C++ files under test.
#include <torch/extension.h>
#include "rasterize_meshes/rasterize_meshes.h"
#include "sample_pdf/sample_pdf.h"
PYBIND11_MODULE(TORCH_EXTENSION_NAME, m) {
  m.def("rasterize_meshes", &RasterizeMeshes);
  m.def("rasterize_meshes_backward", &RasterizeMeshesBackward);
  m.def("sample_pdf", &SamplePdf);
}
