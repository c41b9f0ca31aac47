# ruff: noqa
SIM = "Seeded search over simulated executions of the real code; a clean batch is evidence, not proof. "

prop(
    "C01",
    "Interrupted training leaves a complete, resumable newest checkpoint or none",
    "Whatever instant an Implicitron training process dies at or whatever file operation fails under it, every checkpoint that the "
    "checkpoint lookup reports in the experiment directory is complete and readable, and its model, optimizer and statistics belong to the "
    "same epoch. A new process started on that directory resumes and finishes. A save that reports success is readable afterwards.",
    ["crash_points", "fault_sequences", "configurations"],
    "every file-system call of every training process as crash or I/O-error point (torn, short, failed, full-disk and cross-device writes), "
    "interruptions by exception in any training step, any number of restarts, every optimizer/scheduler/loader/purge configuration",
    "The tests save and load once without faults; a test cannot stop the process between two particular system calls.",
    ["pytorch3d/implicitron/tools/model_io.py", "projects/implicitron_trainer/impl/training_loop.py",
     "projects/implicitron_trainer/impl/model_factory.py", "projects/implicitron_trainer/impl/optimizer_factory.py",
     "pytorch3d/implicitron/tools/stats.py"],
    [("save to a temporary directory, then rename, model file last", "model_io.safe_save_model"),
     ("lookup by the model file name", "model_io.find_last_checkpoint")],
    ["find_last_checkpoint / load_model on the directory after each process", "outcome of the next training process"],
    SIM + "Assumes process-kill crashes (accepted writes survive); model and dataset are small stubs.",
)
prop(
    "C02",
    "Resumed training equals uninterrupted training bit for bit",
    "Training that is stopped, crashes, fails or is rolled back to a stored epoch any number of times and is then resumed ends with exactly the "
    "model weights, optimizer state, learning rates and recorded loss statistics of the same training run without interruption.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "every sequence of clean stops, kills, exceptions and file faults at any point followed by resumption, for every supported optimizer, "
    "learning-rate policy, parameter grouping and data-loader kind",
    "The tests run training once from start to end; equivalence is a relation between two executions over all interruption histories.",
    ["projects/implicitron_trainer/experiment.py", "projects/implicitron_trainer/impl/training_loop.py",
     "projects/implicitron_trainer/impl/optimizer_factory.py", "projects/implicitron_trainer/impl/model_factory.py",
     "pytorch3d/implicitron/tools/model_io.py", "pytorch3d/implicitron/tools/stats.py",
     "pytorch3d/implicitron/dataset/data_loader_map_provider.py"],
    [("re-seeding of all random engines at each epoch", "training_loop.run, impl/utils.seed_all_random_engines"),
     ("optimizer state restored, scheduler replayed", "optimizer_factory.__call__"),
     ("statistics restored with the model", "training_loop.load_stats")],
    ["state_dict of model and optimizer, scheduler.get_last_lr, Stats averages after the last epoch"],
    SIM + "Assumes CPU, one process, and a model drawing randomness from the engines the trainer seeds.",
)
prop(
    "C03",
    "Completed epochs are never lost and checkpoint retention is exact",
    "Once training has moved past an epoch, the newest checkpoint in the directory is of that epoch or later for ever after, whatever crashes "
    "or faults follow, and every new process continues from exactly the newest one. After each completed checkpoint exactly the newest checkpoint and the "
    "configured number before it remain (all of them if purging is off), without leftover files of others; none is written if storing is off.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "every crash point, I/O error and interruption during training with every purge setting, any number of restarts and extensions",
    "Tests look at one fault-free run; losing acknowledged progress needs a crash inside purge or save and a restart.",
    ["projects/implicitron_trainer/impl/training_loop.py", "pytorch3d/implicitron/tools/model_io.py"],
    [("purge of older epochs before the save", "training_loop._checkpoint, model_io.purge_epoch")],
    ["visible checkpoints and files of the experiment directory after each process"],
    SIM + "An epoch counts as acknowledged when the trainer starts the next epoch or ends normally.",
)
prop(
    "C04",
    "NeRF training survives crashes, and downloads never leave bad files",
    "The NeRF example's checkpoint file is at every instant absent or a complete checkpoint; after a kill, an exception or a file error at any "
    "point the next run resumes from the newest completed checkpoint and runs exactly the remaining epochs, so that epoch count, optimizer step "
    "count, learning-rate schedule and recorded statistics agree with an uninterrupted run. A failed, partial or interrupted dataset download "
    "raises, leaves no file that later counts as downloaded, and the data finally loaded are the published data.",
    ["crash_points", "fault_sequences", "histories"],
    "every file operation and training step as crash/error point, every network failure (refused, error status, truncated or stalled body, "
    "interruption) in every download attempt, any number of restarts",
    "Tests train one short run without interruption and have no network.",
    ["projects/nerf/train_nerf.py", "projects/nerf/nerf/dataset.py", "projects/nerf/nerf/stats.py"],
    [("checkpoint replaced at epoch ends", "train_nerf.main"), ("resume", "train_nerf.main"),
     ("download of missing files", "nerf.dataset.download_data")],
    ["checkpoint file after each process", "optimizer steps, epochs and learning rates of the next process", "content returned by get_nerf_datasets"],
    SIM + "Bitwise equality of weights is not claimed for this script (it does not re-seed per epoch).",
)
prop(
    "C05",
    "Training statistics report exactly what was recorded, across restarts",
    "Epoch averages, recorded values, iteration and epoch counters of Stats always equal those of the values passed to update() for that set "
    "and variable, through any sequence of epochs, updates, saves, failing saves, process restarts and clock jumps; an interrupted or failed save is "
    "never loaded as statistics with other content; the measured seconds per iteration never include time outside the process's own epochs.",
    ["histories", "crash_points", "fault_sequences"],
    "every sequence of update/new_epoch/save/load/synchronize operations, every crash or I/O error inside a save, clock jumps between processes",
    "Tests exercise single short sequences without persistence failures or restarts.",
    ["pytorch3d/implicitron/tools/stats.py"],
    [("per-epoch history", "AverageMeter"), ("JSON persistence", "Stats.save, Stats.load"), ("re-synchronisation after resume", "Stats.synchronize_logged_vars")],
    ["get_epoch_averages, history and counters after each operation"],
    SIM,
)
prop(
    "C09",
    "CPU mesh rasterisation does not depend on threads or their schedule",
    "rasterize_meshes on the CPU returns bit for bit the single-threaded result for every number of CPU threads, every interleaving of its "
    "worker threads and every failure to create one, for every batch of meshes (empty ones and culled or clipped faces included) and every image size. "
    "Its workers have no data race, stay inside their buffers, and have all finished when it returns.",
    ["schedules", "fault_sequences", "inputs"],
    "all interleavings at memory-access granularity for 1-24 threads and image heights around the thread count; failing thread creations",
    "The tests run with one thread, so no worker boundary and no interleaving is ever exercised.",
    ["pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp", "pytorch3d/csrc/rasterize_meshes/rasterize_meshes.h",
     "pytorch3d/renderer/mesh/rasterize_meshes.py", "pytorch3d/renderer/mesh/clip.py"],
    [("rows divided between std::threads", "RasterizeMeshesNaiveCpu"), ("worker", "RasterizeMeshesNaiveCpu_worker")],
    ["the four returned tensors"],
    SIM + "Interleavings are sequentially consistent at the granularity of instrumented accesses; libtorch itself is not instrumented.",
)
prop(
    "C10",
    "Importance sampling (sample_pdf) does not depend on threads or their schedule",
    "sample_pdf on the CPU returns bit for bit the single-threaded result for every batch size, number of CPU threads, interleaving of its workers "
    "and failure to create one; workers have no data race and touch only their own rows of the given buffers. For every random draw, the extreme "
    "values of the generator included, the samples are finite, inside the bins, monotone in the quantile and invert the given distribution.",
    ["schedules", "fault_sequences", "inputs"],
    "all interleavings at memory-access granularity for 1-16 threads and every batch size around the thread count; failing thread creations; "
    "every value the random engine can return",
    "The tests run with one thread and typical random draws.",
    ["pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp", "pytorch3d/renderer/implicit/sample_pdf.py"],
    [("rows divided between std::threads", "SamplePdfCpu"), ("worker", "SamplePdfCpu_worker")],
    ["returned samples, buffers around the tensors"],
    SIM + "Interleavings are sequentially consistent at the granularity of instrumented accesses; libtorch itself is not instrumented.",
)
prop(
    "C06",
    "Damaged or failing mesh and point-cloud files are refused, not half loaded",
    "Loading a PLY, OFF or GLB file that was cut off at any byte, or an OBJ file whose material or texture file was, ends in bounded time and either "
    "raises an error or returns exactly the complete geometry of the original (and never a wrong texture); an OBJ file cut off itself yields what its complete lines say. "
    "The same holds when any open, read or allocation fails or comes up short while loading, or the load is interrupted. Afterwards no file is "
    "left open and intact files load exactly as before.",
    ["crash_points", "fault_sequences", "inputs"],
    "every truncation point of every file of every format (the state a killed writer or transfer leaves), every failing, short or interrupted open, "
    "read and allocation, interruption at any line, through every loading function",
    "The tests load intact files and a few hand-made malformed ones.",
    ["pytorch3d/io/ply_io.py", "pytorch3d/io/off_io.py", "pytorch3d/io/obj_io.py", "pytorch3d/io/mtl_io.py",
     "pytorch3d/io/experimental_gltf_io.py", "pytorch3d/io/pluggable.py", "pytorch3d/io/utils.py"],
    [("parsers of declared counts", "ply_io._read_ply_elements_*, off_io._read_off_stream"), ("opening and closing", "io.utils._open_file")],
    ["return value or exception of IO.load_mesh, IO.load_pointcloud, load_ply, load_obj, load_objs_as_meshes", "open file descriptors"],
    SIM + "Not claimed: a cut inside the last number of a text file; per-element colours of a one-element OFF file.",
)
prop(
    "C07",
    "A mesh file loads the same from every source and in every thread",
    "A PLY, OFF, OBJ or GLB file yields exactly the data it was written with whatever carries its bytes: a path as string or Path, a path handled "
    "by a PathManager, a binary or text file object, an in-memory, compressed or archive member stream, a stream positioned in a larger file, or any "
    "object offering the documented read methods, for every pattern of short reads the source produces. Several loads running at the same time in "
    "threads return what each returns alone.",
    ["schedules", "fault_sequences", "inputs", "configurations"],
    "every carrier and read granularity, every interleaving of concurrent loads, ascii and both binary byte orders, arbitrary property order, extra "
    "elements and properties, polygons, comments and blank lines",
    "The tests use files on disk and io.BytesIO/StringIO of a few fixed contents, one load at a time.",
    ["pytorch3d/io/ply_io.py", "pytorch3d/io/off_io.py", "pytorch3d/io/obj_io.py", "pytorch3d/io/experimental_gltf_io.py",
     "pytorch3d/io/pluggable.py", "pytorch3d/io/utils.py"],
    [("binary and text readers", "ply_io, off_io, obj_io"), ("format dispatch", "io.pluggable.IO")],
    ["return values of IO.load_mesh, IO.load_pointcloud, load_ply, load_obj, load_objs_as_meshes"],
    SIM + "Threads switch at lines or bytecodes of pytorch3d.",
)
prop(
    "C08",
    "A mesh or point-cloud save that returns has stored exactly the given data",
    "When saving to PLY, OFF, OBJ (with texture) or GLB returns without error, what was stored loads back as exactly the saved vertices, faces, "
    "normals, colours and texture (up to the stated decimal places or 8-bit colour), whichever PathManager or stream it went to; if any part could not be written "
    "(failing, short, deferred or interrupted write, full disk, failed close) the save raises. No save changes the tensors it was given or other files, "
    "and concurrent saves do not affect each other.",
    ["schedules", "fault_sequences", "inputs", "configurations"],
    "every failing, short or interrupted open, write, flush and close of every save, full disks, interruption, every target kind, every interleaving of saves",
    "The tests write to a healthy local disk or to memory and compare a few round trips.",
    ["pytorch3d/io/ply_io.py", "pytorch3d/io/off_io.py", "pytorch3d/io/obj_io.py", "pytorch3d/io/experimental_gltf_io.py",
     "pytorch3d/io/pluggable.py", "pytorch3d/io/utils.py"],
    [("writers", "ply_io._save_ply, off_io._save_off, obj_io.save_obj, experimental_gltf_io.MeshGlbFormat.save")],
    ["files loaded back after IO.save_mesh, IO.save_pointcloud, save_ply, save_obj"],
    SIM + "Data accepted by write() survive (no power loss). GLB: one texture map, faces indexing the texture like the geometry.",
)
prop(
    "C11",
    "Views of a Meshes batch agree after any history, fault or interleaving",
    "The list, padded and packed forms, index maps, edges, areas, normals, bounding boxes and textures of a Meshes object always describe the same "
    "meshes, after any sequence of lazy computations, copying, moving, indexing, splitting, joining, offsetting, scaling, updating and sampling calls; "
    "operations not documented as in place leave the given tensors and other Meshes objects unchanged. This also holds after any of these "
    "calls fails or is interrupted at any point, and for threads that read the same object at the same time.",
    ["schedules", "fault_sequences", "histories", "inputs"],
    "every order of accessor and mutation calls on shared objects, an allocation failure in any operator or an exception at any line, every "
    "interleaving of concurrent readers; heterogeneous batches with empty members",
    "The tests call each method on fresh objects in one fixed order.",
    ["pytorch3d/structures/meshes.py", "pytorch3d/structures/utils.py", "pytorch3d/renderer/mesh/textures.py"],
    [("lazily computed cached tensors", "Meshes._compute_packed, _compute_padded, _compute_edges_packed, ..."), ("cache copying", "clone, detach, to, update_padded, offset_verts_, scale_verts_")],
    ["all public accessors after each step"],
    SIM + "Threads switch at Python lines or bytecodes; in-place methods are not called concurrently. TexturesAtlas of all-empty batches is excluded.",
)
prop(
    "C12",
    "Views of a Pointclouds batch agree after any history, fault or interleaving",
    "The list, padded and packed forms of points, normals and features, the index maps and bounding boxes of a Pointclouds object always describe the "
    "same clouds, after any sequence of lazy computations, copying, moving, indexing, splitting, joining, offsetting, scaling, subsampling and updating "
    "calls; operations not documented as in place leave the given tensors and other objects unchanged. This also holds after any of these calls "
    "fails or is interrupted at any point, and for threads that read the same object at the same time.",
    ["schedules", "fault_sequences", "histories", "inputs"],
    "every order of accessor and mutation calls on shared objects, an allocation failure in any operator or an exception at any line, every "
    "interleaving of concurrent readers; heterogeneous batches with empty clouds, with or without normals and features",
    "The tests call each method on fresh objects in one fixed order.",
    ["pytorch3d/structures/pointclouds.py", "pytorch3d/structures/utils.py"],
    [("lazily computed cached tensors", "Pointclouds._compute_packed, _compute_padded"), ("cache copying", "clone, detach, to, update_padded, offset_, scale_")],
    ["all public accessors after each step"],
    SIM + "Threads switch at Python lines or bytecodes; in-place methods are not called concurrently.",
)

prop(
    "C13",
    "OpenGL rasterization on many devices and threads equals rendering alone",
    "A MeshRasterizerOpenGL returns, for every mesh of a batch, the faces, barycentric coordinates and depths it returns in a process of its own and that agree with the "
    "CPU MeshRasterizer, whatever other threads, devices, DataParallel replicas or rasterizers did before or do at the same time. There is at most "
    "one EGL and one CUDA context per device, an EGL context is current in one thread at a time, and no thread keeps a context after a call. A failing "
    "driver call is reported to its caller only and leaves the contexts usable for everybody, never a lock that stays taken.",
    ["schedules", "fault_sequences", "histories", "configurations"],
    "every interleaving of threads on 1-3 devices at lines and driver calls, every order of operations, every failing driver call",
    "The tests of this part need several GPUs and do not run; they could not choose interleavings or make driver calls fail.",
    ["pytorch3d/renderer/opengl/opengl_utils.py", "pytorch3d/renderer/opengl/rasterizer_opengl.py"],
    [("one context per device, behind a lock", "_DeviceContextStore.get_egl_context, get_cuda_context"),
     ("locked and current only inside the with block", "EGLContext.active_and_locked")],
    ["Fragments of every call", "calls received by the simulated driver", "current contexts after each call"],
    SIM + "EGL, OpenGL and CUDA are a simulated driver with a software rasteriser.",
)

prop(
    "C14",
    "A JSON index dataset is exactly the annotated frames its filters select",
    "Every query of a JsonIndexDataset (length, items by number or (sequence, frame), ordered frames of a sequence, categories, evaluation batches, "
    "subset_from_frame_index, join, dataset maps of several categories) returns exactly the frames, with the annotated data, that the documented filters select from "
    "the annotation and subset files. This holds after any sequence of queries, after reads that failed, were short or interrupted (those raise and change nothing), "
    "for concurrent queries, for every order of the category workers, and does not modify annotations shared with other datasets.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "every combination of filters and annotation contents, every sequence of queries and derived datasets, every failing or short read or open, every "
    "interleaving of concurrent queries, every order in which category workers finish",
    "The tests query a few fixed configurations of a data set that is not available here or a handful of synthetic frames.",
    ["pytorch3d/implicitron/dataset/json_index_dataset.py", "pytorch3d/implicitron/dataset/dataset_base.py", "pytorch3d/implicitron/dataset/frame_data.py",
     "pytorch3d/implicitron/dataset/dataset_map_provider.py", "pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py",
     "pytorch3d/implicitron/dataset/types.py", "pytorch3d/implicitron/dataset/utils.py"],
    [("filter cascade", "JsonIndexDataset.__post_init__"), ("frame loading", "FrameDataBuilder.build, load_image and the like"),
     ("derived datasets", "JsonIndexDataset.subset_from_frame_index, join; DatasetMap.join")],
    ["all public queries of the dataset and its FrameData"],
    SIM + "Threads switch at Python lines of the dataset code. Undocumented mask mass between 0 and 2 is not generated.",
)
prop(
    "C15",
    "An SQL index dataset is exactly the annotated frames its query selects",
    "Every query of a SqlIndexDataset (length, items by number or (sequence, frame), ordered frames of a sequence, subset_from_frame_index, metadata of points) returns exactly "
    "the frames that the documented filters, SQL clauses, subset lists and limits select from the database, with their annotated data. Preloading, precomputed "
    "indices, sessions, forked or pickled copies and concurrent queries do not change the answers, and a database or file that cannot be read "
    "makes the query raise and leaves the dataset intact.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "every combination of filters, clauses and limits over random databases, every sequence of queries, every failing read or open of database and files, "
    "every interleaving of threads, death of worker processes",
    "The tests run a few queries against one small fixed database in one thread.",
    ["pytorch3d/implicitron/dataset/sql_dataset.py", "pytorch3d/implicitron/dataset/orm_types.py", "pytorch3d/implicitron/dataset/frame_data.py",
     "pytorch3d/implicitron/dataset/dataset_base.py"],
    [("query construction", "SqlIndexDataset._build_sql_query"), ("frame index", "SqlIndexDataset._index"), ("item access", "SqlIndexDataset.__getitem__, _get_item")],
    ["all public queries of the dataset and its FrameData"],
    SIM + "A frame is in at most one requested subset. Threads switch at lines of the dataset code, not inside sqlite.",
)
prop(
    "C16",
    "Every training and evaluation batch has the composition its loader promises",
    "Each batch of SceneBatchSampler, DoublePoolBatchSampler, the data loader providers and single-scene dataset maps has the promised size, sequences, frames, order, "
    "conditioning and evaluation frames; an epoch has the promised number of batches and, without replacement, no repeats. This holds for every outcome of the random "
    "draws, whatever epochs were abandoned, interleaved, run by other threads or hit by failing reads before, and with a fixed seed epochs are "
    "reproducible. The collated FrameData holds exactly the data of its frames.",
    ["schedules", "histories", "configurations", "fault_sequences"],
    "every outcome of every random draw, every order and interleaving of epochs of the same samplers, every failing read, every dataset shape around the "
    "batch and sequence sizes",
    "The tests check a few epochs on small fixed datasets with typical draws.",
    ["pytorch3d/implicitron/dataset/scene_batch_sampler.py", "pytorch3d/implicitron/dataset/data_loader_map_provider.py",
     "pytorch3d/implicitron/dataset/single_sequence_dataset.py", "pytorch3d/implicitron/dataset/frame_data.py"],
    [("sampling of batches", "SceneBatchSampler._sample_batch"), ("pools of known and unseen frames", "DoublePoolBatchSampler, SimpleDataLoaderMapProvider"),
     ("collation", "FrameData.collate")],
    ["indices drawn by the samplers", "batches returned by the data loaders"],
    SIM + "DataLoader worker processes are not simulated (num_workers=0).",
)
prop(
    "C17",
    "Random samples of surfaces, clouds and rotations are what they promise to be",
    "sample_points_from_meshes returns points inside positive-area faces of the right mesh, uniform by area, with that face's normal and that point's texture, zeros for empty meshes, and raises for all-empty or "
    "not finite batches. sample_farthest_points (C++ and naive) starts where asked, always takes a point of the cloud farthest from those taken, and pads with -1 and 0; "
    "Pointclouds.subsample keeps a random subset without repeats, normals and features aligned; random rotations and jitter_extrinsics stay valid and within "
    "their bounds. This holds for every random draw, after calls that failed, leaves inputs unchanged and is reproducible by seed.",
    ["inputs", "fault_sequences", "histories"],
    "every outcome of the random draws, ends of the ranges included; batches with empty members and zero-area faces; failed allocations before the call",
    "The tests of surface sampling need a GPU; the others use typical draws of a few fixed clouds.",
    ["pytorch3d/ops/sample_points_from_meshes.py", "pytorch3d/ops/sample_farthest_points.py", "pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp",
     "pytorch3d/structures/pointclouds.py", "pytorch3d/transforms/rotation_conversions.py", "pytorch3d/implicitron/tools/camera_utils.py"],
    [("face choice and barycentric draw", "sample_points_from_meshes, _rand_barycentric_coords"), ("iteration", "FarthestPointSamplingCpu, sample_farthest_points_naive"),
     ("subset", "Pointclouds.subsample")],
    ["returned samples, normals, textures, indices", "inputs after the call"],
    SIM + "Random number generators are the simulated component; distributions are tested at 7 standard deviations on fixed seeds. Coincident points may repeat in farthest point samples.",
)
prop(
    "C18",
    "Sampled rays belong to the requested cameras, pixels, masks and depths",
    "Every ray of MultinomialRaysampler, NDCMultinomialRaysampler, MonteCarloRaysampler and the Implicitron samplers starts at its camera and passes through its pixel location; locations lie on the grid "
    "(within positive mask pixels, distinct when enough exist, in proportion to the mask) or within bounds; bundle shapes, camera ids and counts are as documented; depths are sorted, within "
    "[min_depth, max_depth], evenly spaced or one per stratum. RayPointRefiner returns sorted depths following the given weights and keeps the input bundle. Holds for every draw, after failed calls, "
    "for calls with overridden settings and for concurrent calls.",
    ["inputs", "schedules", "fault_sequences", "configurations"],
    "every outcome of the random draws, every grid, mask, camera and request size, failed allocations, every interleaving of two calls on one sampler",
    "The tests sample a few configurations with typical draws.",
    ["pytorch3d/renderer/implicit/raysampling.py", "pytorch3d/renderer/implicit/utils.py", "pytorch3d/implicitron/models/renderer/ray_sampler.py",
     "pytorch3d/implicitron/models/renderer/ray_point_refiner.py", "pytorch3d/implicitron/models/renderer/base.py"],
    [("pixel choice", "_safe_multinomial"), ("camera choice and packing", "_sample_cameras_and_masks, _pack_ray_bundle"), ("depths", "_jiggle_within_stratas")],
    ["returned ray bundles"],
    SIM + "Random number generators are the simulated component; distributions are tested at 7 standard deviations on fixed seeds.",
)
prop(
    "C19",
    "An image shows the scene, cameras, lights, materials and settings of its call",
    "MeshRenderer with each shader, PointsRenderer and VolumeRenderer return for each batch element the image of that element's scene from that element's camera under its lights, materials, blending "
    "and raster settings: those of the objects as they are now, or of the call where it overrides them. The image does not depend on what was rendered before, on calls that failed or were interrupted, on "
    "concurrent calls, on the other elements of the batch, nor on changes to copies, parts or other default objects; scenes, cameras, lights, materials and settings are not changed by rendering, and gradients are those of a fresh renderer.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "every sequence of renderings, overrides and changes of the long-lived objects, every interleaving of calls on one renderer, every failing allocation and interruption",
    "The tests render a few fixed scenes once, most of them on a GPU; test_render_meshes needs OpenGL to be imported.",
    ["pytorch3d/renderer/mesh/renderer.py", "pytorch3d/renderer/mesh/shader.py", "pytorch3d/renderer/mesh/shading.py", "pytorch3d/renderer/lighting.py", "pytorch3d/renderer/materials.py",
     "pytorch3d/renderer/blending.py", "pytorch3d/renderer/cameras.py", "pytorch3d/renderer/mesh/textures.py", "pytorch3d/renderer/points/renderer.py", "pytorch3d/renderer/points/compositor.py",
     "pytorch3d/renderer/implicit/renderer.py", "pytorch3d/renderer/implicit/raymarching.py", "pytorch3d/renderer/utils.py"],
    [("settings of the call", "*.forward(**kwargs)"), ("batched properties", "TensorProperties, TensorAccessor"), ("shading", "phong_shading, gouraud_shading, flat_shading, softmax_rgb_blend"),
     ("compositing", "AlphaCompositor, NormWeightedCompositor"), ("volumes", "VolumeSampler, EmissionAbsorptionRaymarcher")],
    ["images, fragments and gradients returned", "state of the objects after each call"],
    SIM + "Judged bit for bit against fresh objects, and against a reference renderer in double precision away from edges and ties; CPU only.",
)
prop(
    "C21",
    "A voxel grid field keeps its contents where they are",
    "VoxelGridModule (full, CP and VM grids) and VoxelGridImplicitFunction evaluate, at any points, what their values, extents, translation, interpolation and decoders define. A change of resolution "
    "or a crop (to given bounds or, by the scaffold, to the object) happens at the epochs it is configured for and nowhere else, keeps the field inside the remaining box where it was, and the cropped grid "
    "contains the box asked for and does not grow. The scaffold and the crop keep everything denser than the threshold. State saved and loaded into a fresh model, rolled back, or deep-copied gives the same field; "
    "calls which failed, were interrupted or ran at once, chunk sizes and the other rays of a call change nothing.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "every sequence of epochs, crops, saves and reloads, every failing allocation and interruption in them, every interleaving of evaluations",
    "The tests check shapes, constant fields and one crop of a cubic grid at the origin; cropped grids are never reloaded.",
    ["pytorch3d/implicitron/models/implicit_function/voxel_grid.py", "pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py",
     "pytorch3d/implicitron/models/implicit_function/decoding_functions.py", "pytorch3d/implicitron/models/implicit_function/utils.py",
     "pytorch3d/renderer/implicit/harmonic_embedding.py", "pytorch3d/structures/volumes.py"],
    [("resolution", "VoxelGridBase.change_resolution, change_individual_resolution"), ("crop", "crop_self, crop_world, get_cropped_bounds"),
     ("epochs", "subscribe_to_epochs, apply_epochs"), ("scaffold", "_get_scaffold, get_grid_points"), ("reload", "_create_parameters_from_state_dict")],
    ["densities, colors and values at points", "state dicts, extents and resolutions after each change"],
    SIM + "Against a float64 reference of interpolation, decoders and embedding; the field after a change judged at the old values' nodes and on affine fields; CPU only.",
)
prop(
    "C20",
    "Implicitron images and losses follow from inputs, state and randomness alone",
    "GenericModel and OverfitModel, with any combination of their parts, return for the same inputs, state dict, mode and random state the same images, losses and gradients, bit for bit: earlier calls, failed or "
    "interrupted ones, training, saving and loading, rolling back and copying change nothing else, and inputs and buffers stay as they are. The size of chunks, the other views of a batch, the "
    "order of source views and what is known of the target do not change an image. Ray marching, sphere tracing, the losses (ViewMetrics, RegularizationMetrics, masks, crops and "
    "packed rays included) and the metrics of evaluation have the values of their definitions, for frames with any of their fields missing.",
    ["inputs", "histories", "fault_sequences", "configurations"],
    "every configuration of model, sequence of calls, training steps, saves and reloads, failing allocation or interruption in them, chunk size and batch",
    "The tests build models with default settings and check that one call returns; losses are compared on one mask; no test reloads, fails or compares chunks.",
    ["pytorch3d/implicitron/models/generic_model.py", "pytorch3d/implicitron/models/overfit_model.py", "pytorch3d/implicitron/models/renderer/multipass_ea.py",
     "pytorch3d/implicitron/models/renderer/raymarcher.py", "pytorch3d/implicitron/models/renderer/sdf_renderer.py", "pytorch3d/implicitron/models/renderer/lstm_renderer.py",
     "pytorch3d/implicitron/models/metrics.py", "pytorch3d/implicitron/tools/metric_utils.py", "pytorch3d/implicitron/models/global_encoder/autodecoder.py",
     "pytorch3d/implicitron/models/view_pooler/view_sampler.py", "pytorch3d/implicitron/evaluation/evaluate_new_view_synthesis.py"],
    [("chunks", "models.utils.chunk_generator, apply_chunked"), ("bound arguments", "ImplicitFunctionWrapper.bind_args, unbind_args"),
     ("codes of sequences", "Autodecoder._load_key_map_hook"), ("losses", "ViewMetrics.forward, weighted_sum_losses"), ("evaluation", "eval_batch, aggregate_nvs_results")],
    ["everything forward returns, gradients, state dicts", "losses and metrics by name"],
    SIM + "Models, images and networks are tiny; image features are a stub and lpips is absent; CPU only.",
)
prop(
    "C22",
    "A configuration says what is built",
    "For classes made with implicitron.tools.config, the default arguments are those the class, its bases, its members, the registered implementations and the tweak hooks define, and building from settings "
    "(whole, partial, merged, or read back from text) gives exactly the objects they name, leaving the settings unchanged. remove_unused_components removes what building does not use and nothing else. "
    "The registry returns what was registered last under a name. None of this depends on the order in which classes are expanded or used, on expansions that failed or were interrupted, on how many threads "
    "expand and build at once, or on changes to what earlier calls returned; malformed classes are refused every time.",
    ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
    "every hierarchy of classes and members, every order of expansion, registration and use, every failing hook or interruption, every interleaving of threads",
    "The tests expand a dozen handwritten classes once each, in one thread and one order.",
    ["pytorch3d/implicitron/tools/config.py"],
    [("expansion", "expand_args_fields"), ("defaults", "get_default_args, enable_get_default_args, get_default_args_field"), ("building", "create_x, run_auto_creation"),
     ("registry", "_Registry.get, get_all, register"), ("unused parts", "remove_unused_components")],
    ["default settings", "objects built and their parts", "answers of the registry"],
    SIM + "Against a reference model of the described classes; classes are generated.",
)
prop(
    "C23",
    "Operators and losses treat each element of a batch as if it were alone",
    "For each operator and loss of pytorch3d.ops and pytorch3d.loss, the result and the gradient of an element of a batch are those of the element computed alone, and those of the definition, "
    "whatever the other elements are, how many and how large they are (also empty), in which order they stand, whatever values pad them and whatever strides the tensors have; batch reductions are the sums or means of these. "
    "Padding of results is as documented and contributes no gradient. Inputs stay unchanged, and calls that failed or were interrupted before, or run at the same time, change nothing.",
    ["inputs", "schedules", "fault_sequences", "configurations"],
    "every operator, setting, batch of elements, padding, failing allocation or interruption, every interleaving of two calls",
    "The tests use batches of equal elements or one pair of sizes with zero padding, most of them on a GPU only; gradients are compared between implementations, not with the definition.",
    ["pytorch3d/ops/knn.py", "pytorch3d/ops/ball_query.py", "pytorch3d/ops/sample_farthest_points.py", "pytorch3d/ops/points_alignment.py", "pytorch3d/ops/points_normals.py",
     "pytorch3d/ops/perspective_n_points.py", "pytorch3d/ops/points_to_volumes.py", "pytorch3d/ops/vert_align.py", "pytorch3d/ops/graph_conv.py", "pytorch3d/ops/cubify.py", "pytorch3d/ops/marching_cubes.py",
     "pytorch3d/ops/subdivide_meshes.py", "pytorch3d/ops/mesh_filtering.py", "pytorch3d/ops/iou_box3d.py", "pytorch3d/ops/interp_face_attrs.py", "pytorch3d/ops/laplacian_matrices.py",
     "pytorch3d/ops/mesh_face_areas_normals.py", "pytorch3d/ops/packed_to_padded.py", "pytorch3d/loss", "pytorch3d/csrc"],
    [("masks of padding", "knn_gather, chamfer_distance, iterative_closest_point"), ("packing", "vert_align, point_mesh_face_distance, SubdivideMeshes"), ("gradients", "csrc backward functions"),
     ("clouds of different sizes", "sample_farthest_points, estimate_pointcloud_normals, add_points_features_to_volume_densities_features")],
    ["results and gradients per element", "padding of results"],
    SIM + "Against float64 definitions and against the element alone; degenerate geometry is left out; CPU only.",
)
prop(
    "C24",
    "Rasterized, blended and marched images, and their gradients, are as defined",
    "rasterize_meshes, rasterize_points, alpha_composite, norm_weighted_sum, weighted_sum, hard, sigmoid and softmax blending, sample_textures of vertex, UV and atlas textures and the ray marchers return for each "
    "image of a batch the nearest faces or points of each pixel, their depths, barycentric coordinates and signed squared distances, or the weights and colors that their definitions give for its own elements alone, "
    "whatever the other images are (also empty), in which order they stand and what values stand where nothing is hit; -1 or the background where nothing is. Gradients are the derivatives of these. "
    "Inputs stay unchanged, and calls that failed or were interrupted before, or run at the same time, change nothing.",
    ["inputs", "schedules", "fault_sequences", "configurations"],
    "every operation, setting, scene, batch of images, failing allocation or interruption, every interleaving of two calls",
    "The tests compare implementations with one another on a few scenes, mostly on a GPU; gradients are compared with a Python version for one loss.",
    ["pytorch3d/renderer/mesh/rasterize_meshes.py", "pytorch3d/renderer/mesh/clip.py", "pytorch3d/renderer/points/rasterize_points.py", "pytorch3d/renderer/compositing.py", "pytorch3d/renderer/blending.py",
     "pytorch3d/renderer/mesh/textures.py", "pytorch3d/renderer/implicit/raymarching.py", "pytorch3d/csrc/rasterize_meshes", "pytorch3d/csrc/rasterize_points", "pytorch3d/csrc/compositing",
     "pytorch3d/csrc/blending", "pytorch3d/csrc/utils/geometry_utils.h"],
    [("nearest hits", "RasterizeMeshesNaiveCpu, RasterizePointsNaiveCpu"), ("gradients", "RasterizeMeshesBackwardCpu, RasterizePointsBackwardCpu, compositing backward"),
     ("offsets of elements", "_format_radius, clip_faces, convert_clipped_rasterization_to_original_faces"), ("texels", "TexturesUV.sample_textures, TexturesAtlas.sample_textures")],
    ["fragments, images and gradients per image"],
    SIM + "Against float64 definitions and against the image alone; pixels on edges and ties are left out of the comparison with the definition; CPU only.",
)
