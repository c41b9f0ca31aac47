// Binds the dispatchers that pytorch3d/csrc/ext.cpp binds and on which random
// sampling rests, built from the working tree.
#include <torch/extension.h>
#include "face_areas_normals/face_areas_normals.h"
#include "packed_to_padded_tensor/packed_to_padded_tensor.h"
#include "sample_pdf/sample_pdf.h"
#include "sample_farthest_points/sample_farthest_points.h"
PYBIND11_MODULE(TORCH_EXTENSION_NAME, m) {
  m.def("face_areas_normals_forward", &FaceAreasNormalsForward);
  m.def("face_areas_normals_backward", &FaceAreasNormalsBackward);
  m.def("packed_to_padded", &PackedToPadded);
  m.def("padded_to_packed", &PaddedToPacked);
  m.def("sample_pdf", &SamplePdf);
  m.def("sample_farthest_points", &FarthestPointSampling);
}
