From 517a3bbca0ff0f3929fec00b78feeadb1f7cef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 001/103] fix: make the model file of a checkpoint visible
 last, from the target file system

safe_save_model moved the files of a checkpoint one by one in the order
stats, model, optimizer, from a temporary directory which may be on another
file system. An interruption between the moves left a model without its
optimizer (resuming raised FileNotFoundError), and an interruption of a move
across file systems left a truncated model file.
---
 pytorch3d/implicitron/tools/model_io.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/implicitron/tools/model_io.py b/pytorch3d/implicitron/tools/model_io.py
index d7942d0..bbdf67b 100644
--- a/pytorch3d/implicitron/tools/model_io.py
+++ b/pytorch3d/implicitron/tools/model_io.py
@@ -9,7 +9,6 @@
 import glob
 import logging
 import os
-import shutil
 import tempfile
 from typing import Optional
 
@@ -58,15 +57,15 @@ def safe_save_model(model, stats, fl, optimizer=None, cfg=None) -> None:
     This functions stores model files safely so that no model files exist on the
     file system in case the saving procedure gets interrupted.
 
-    This is done first by saving the model files to a temporary directory followed
-    by (atomic) moves to the target location. Note, that this can still result
-    in a corrupt set of model files in case interruption happens while performing
-    the moves. It is however quite improbable that a crash would occur right at
-    this time.
+    This is done first by saving the model files to a temporary directory, which
+    is on the same file system as the target, followed by atomic moves to the
+    target location. The model file, whose presence makes `find_last_checkpoint`
+    report the checkpoint, is moved last, so that an interruption between the
+    moves never exposes a model without its stats and its optimizer.
     """
     logger.info(f"saving model files safely to {fl}")
     # first store everything to a tmpdir
-    with tempfile.TemporaryDirectory() as tmpdir:
+    with tempfile.TemporaryDirectory(dir=os.path.split(fl)[0] or ".") as tmpdir:
         tmpfl = os.path.join(tmpdir, os.path.split(fl)[-1])
         stored_tmp_fls = save_model(model, stats, tmpfl, optimizer=optimizer, cfg=cfg)
         tgt_fls = [
@@ -77,11 +76,14 @@ def safe_save_model(model, stats, fl, optimizer=None, cfg=None) -> None:
             )
             for tmpfl in stored_tmp_fls
         ]
-        # then move from the tmpdir to the right location
-        for tmpfl, tgt_fl in zip(stored_tmp_fls, tgt_fls):
+        # then move from the tmpdir to the right location, the model last
+        flmodel = get_model_path(tmpfl)
+        for tmpfl, tgt_fl in sorted(
+            zip(stored_tmp_fls, tgt_fls), key=lambda fls: fls[0] == flmodel
+        ):
             if tgt_fl is None:
                 continue
-            shutil.move(tmpfl, tgt_fl)
+            os.replace(tmpfl, tgt_fl)
 
 
 def save_model(model, stats, fl, optimizer=None, cfg=None):
-- 
2.43.0


From a8f4cbe7b7b896bc1bea68faeeb0bf93cc9a85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 002/103] fix: report errors of the final flush when saving a
 checkpoint

torch.save to a file name does not notice that the last write of a file fails,
e.g. on a full disk: safe_save_model then succeeded and published an empty or
truncated model or optimizer file, which cannot be loaded.
---
 pytorch3d/implicitron/tools/model_io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/tools/model_io.py b/pytorch3d/implicitron/tools/model_io.py
index bbdf67b..a7872fc 100644
--- a/pytorch3d/implicitron/tools/model_io.py
+++ b/pytorch3d/implicitron/tools/model_io.py
@@ -86,16 +86,22 @@ def safe_save_model(model, stats, fl, optimizer=None, cfg=None) -> None:
             os.replace(tmpfl, tgt_fl)
 
 
+def _save_to_file(state_dict, fl) -> None:
+    # Given a file name, torch.save does not report errors of the final flush.
+    with open(fl, "wb") as f:
+        torch.save(state_dict, f)
+
+
 def save_model(model, stats, fl, optimizer=None, cfg=None):
     flstats = get_stats_path(fl)
     flmodel = get_model_path(fl)
     logger.info("saving model to %s" % flmodel)
-    torch.save(model.state_dict(), flmodel)
+    _save_to_file(model.state_dict(), flmodel)
     flopt = None
     if optimizer is not None:
         flopt = get_optimizer_path(fl)
         logger.info("saving optimizer to %s" % flopt)
-        torch.save(optimizer.state_dict(), flopt)
+        _save_to_file(optimizer.state_dict(), flopt)
     logger.info("saving model stats to %s" % flstats)
     stats.save(flstats)
 
-- 
2.43.0


From 3a0c98d632b4bbdc5a23001ec3224e014f51dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 003/103] fix: do not apply learning rate decay twice when
 resuming

The loaded optimizer state contains the learning rate of the checkpoint. The
scheduler is then stepped through all the past epochs, so that MultiStepLR
multiplied by gamma once more for each milestone already passed.
---
 projects/implicitron_trainer/impl/optimizer_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 2305979..0e85d64 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -160,6 +160,10 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
         if optimizer_state is not None:
             logger.info("Setting loaded optimizer state.")
             optimizer.load_state_dict(optimizer_state)
+            # The scheduler steps below re-apply all the learning rate changes
+            # made before the checkpoint, so start from the initial values.
+            for group in optimizer.param_groups:
+                group["lr"] = group.get("initial_lr", group["lr"])
 
         # Initialize the learning rate scheduler
         if self.lr_policy.casefold() == "MultiStepLR".casefold():
-- 
2.43.0


From 7011bcc5254ba29fdaf65007f613dd275fe0f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 004/103] fix: keep the recorded statistics of past epochs when
 resuming

A statistic which is not updated in every epoch, e.g. of the validation set with
validation_interval > 1, lost its whole history when training was resumed from
a checkpoint of an epoch without an update.
---
 pytorch3d/implicitron/tools/stats.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 2798b63..1b5343b 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -459,6 +459,7 @@ class Stats:
 
         for stat_set in stat_sets:
             for stat in log_vars:
+                first_missing_epoch = 0
                 if stat not in self.stats[stat_set]:
                     logger.info(
                         "missing stat %s:%s -> filling with default values (%1.2f)"
@@ -468,6 +469,12 @@ class Stats:
                     h = self.stats[stat_set][stat].history
                     if len(h) == 0:  # just never updated stat ... skip
                         continue
+                    elif len(h) <= self.epoch:  # not updated in the last epochs
+                        logger.info(
+                            "incomplete stat %s:%s -> filling the missing epochs with "
+                            "default values (%1.2f)" % (stat_set, stat, default_val)
+                        )
+                        first_missing_epoch = len(h)
                     else:
                         logger.info(
                             "incomplete stat %s:%s -> reseting with default values (%1.2f)"
@@ -476,11 +483,12 @@ class Stats:
                 else:
                     continue
 
-                self.stats[stat_set][stat] = AverageMeter()
-                self.stats[stat_set][stat].reset()
+                if first_missing_epoch == 0:
+                    self.stats[stat_set][stat] = AverageMeter()
+                    self.stats[stat_set][stat].reset()
 
                 lastep = self.epoch + 1
-                for ep in range(lastep):
+                for ep in range(first_missing_epoch, lastep):
                     self.stats[stat_set][stat].update(default_val, n=1, epoch=ep)
                 epoch_generated = self.stats[stat_set][stat].get_epoch()
                 assert epoch_generated == self.epoch + 1, (
-- 
2.43.0


From 6230707b13754cfe538ad77277bc64ae13d4bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 005/103] fix: make the order of DoublePoolBatchSampler
 reproducible when resuming

The trainer re-seeds the global random engines in every epoch, so that a
resumed training repeats the uninterrupted one. The private generator of
DoublePoolBatchSampler was seeded once when the loader was built, so that a
resumed training repeated the batches of the first epochs.
---
 .../dataset/data_loader_map_provider.py       | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/data_loader_map_provider.py b/pytorch3d/implicitron/dataset/data_loader_map_provider.py
index 1e33887..e709990 100644
--- a/pytorch3d/implicitron/dataset/data_loader_map_provider.py
+++ b/pytorch3d/implicitron/dataset/data_loader_map_provider.py
@@ -185,33 +185,34 @@ class DoublePoolBatchSampler(Sampler[List[int]]):
                 f"Cannot make up ({batch_size})-batches from {len(self.rest_indices)}"
             )
 
-        # copied from RandomSampler
-        seed = int(torch.empty((), dtype=torch.int64).random_().item())
-        self.generator = torch.Generator()
-        self.generator.manual_seed(seed)
-
     def __len__(self) -> int:
         if self.num_batches is not None:
             return self.num_batches
         return len(self.first_indices)
 
     def __iter__(self) -> Iterator[List[int]]:
+        # copied from RandomSampler. The seed is drawn anew for each iteration, so
+        # that seeding the global engine at the start of an epoch determines it.
+        seed = int(torch.empty((), dtype=torch.int64).random_().item())
+        generator = torch.Generator()
+        generator.manual_seed(seed)
+
         num_batches = self.num_batches
         if self.replacement:
             i_first = torch.randint(
                 len(self.first_indices),
                 size=(len(self),),
-                generator=self.generator,
+                generator=generator,
             )
         elif num_batches is not None:
             n_copies = 1 + (num_batches - 1) // len(self.first_indices)
             raw_indices = [
-                torch.randperm(len(self.first_indices), generator=self.generator)
+                torch.randperm(len(self.first_indices), generator=generator)
                 for _ in range(n_copies)
             ]
             i_first = torch.cat(raw_indices)[:num_batches]
         else:
-            i_first = torch.randperm(len(self.first_indices), generator=self.generator)
+            i_first = torch.randperm(len(self.first_indices), generator=generator)
         first_indices = [self.first_indices[i] for i in i_first]
 
         if self.batch_size == 1:
@@ -225,7 +226,7 @@ class DoublePoolBatchSampler(Sampler[List[int]]):
             # results in batches whose first elements as the first run.
             i_rest = torch.randperm(
                 len(self.rest_indices),
-                generator=self.generator,
+                generator=generator,
             )[: self.batch_size - 1]
             yield [first_index] + [self.rest_indices[i] for i in i_rest]
 
-- 
2.43.0


From 9f9b86cd5e03f18d9c9e6f707feb1e59ed053a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 006/103] fix: never keep an error page or a partial file as a
 NeRF dataset file

An HTTP error response, or an interruption of the write, left a file under the
name of the dataset, which all later runs tried to load instead of downloading
it again.
---
 projects/nerf/nerf/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/nerf/nerf/dataset.py b/projects/nerf/nerf/dataset.py
index e509331..b20f227 100644
--- a/projects/nerf/nerf/dataset.py
+++ b/projects/nerf/nerf/dataset.py
@@ -162,5 +162,9 @@ def download_data(
             print(f"Downloading dataset {dataset_name} from {remote_fl} to {local_fl}.")
 
             r = requests.get(remote_fl)
-            with open(local_fl, "wb") as f:
+            r.raise_for_status()
+            # The file must not appear under its name before it is complete.
+            tmp_fl = local_fl + ".tmp"
+            with open(tmp_fl, "wb") as f:
                 f.write(r.content)
+            os.replace(tmp_fl, local_fl)
-- 
2.43.0


From 93eef52ace1fcbce6d79a69f9727c60f0b177a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 007/103] fix: make NeRF checkpoints loadable again

Checkpoints stored the pickled statistics as bytes, which the restricted
unpickler of torch.load(weights_only=True) rejects, so that a training which
had written a checkpoint could not be resumed.
---
 projects/nerf/train_nerf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/projects/nerf/train_nerf.py b/projects/nerf/train_nerf.py
index 18f8cb4..66ea624 100644
--- a/projects/nerf/train_nerf.py
+++ b/projects/nerf/train_nerf.py
@@ -78,7 +78,10 @@ def main(cfg: DictConfig):
             print(f"Resuming from checkpoint {checkpoint_path}.")
             loaded_data = torch.load(checkpoint_path, weights_only=True)
             model.load_state_dict(loaded_data["model"])
-            stats = pickle.loads(loaded_data["stats"])
+            stats_data = loaded_data["stats"]
+            if isinstance(stats_data, torch.Tensor):
+                stats_data = stats_data.numpy().tobytes()
+            stats = pickle.loads(stats_data)
             print(f"   => resuming from epoch {stats.epoch}.")
             optimizer_state_dict = loaded_data["optimizer"]
             start_epoch = stats.epoch
@@ -262,7 +265,10 @@ def main(cfg: DictConfig):
             data_to_store = {
                 "model": model.state_dict(),
                 "optimizer": optimizer.state_dict(),
-                "stats": pickle.dumps(stats),
+                # A tensor, because torch.load(weights_only=True) rejects bytes.
+                "stats": torch.frombuffer(
+                    bytearray(pickle.dumps(stats)), dtype=torch.uint8
+                ),
             }
             torch.save(data_to_store, checkpoint_path)
 
-- 
2.43.0


From c1190a9b85df7cca18abd57cc06ac5240d037d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 008/103] fix: replace the NeRF checkpoint atomically

The only checkpoint was overwritten in place, so that an interruption or a full
disk during the save destroyed all the progress.
---
 projects/nerf/train_nerf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/nerf/train_nerf.py b/projects/nerf/train_nerf.py
index 66ea624..edbea1f 100644
--- a/projects/nerf/train_nerf.py
+++ b/projects/nerf/train_nerf.py
@@ -270,7 +270,11 @@ def main(cfg: DictConfig):
                     bytearray(pickle.dumps(stats)), dtype=torch.uint8
                 ),
             }
-            torch.save(data_to_store, checkpoint_path)
+            # Keep the previous checkpoint until the new one is complete.
+            checkpoint_path_tmp = checkpoint_path + ".tmp"
+            with open(checkpoint_path_tmp, "wb") as f:
+                torch.save(data_to_store, f)
+            os.replace(checkpoint_path_tmp, checkpoint_path)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3370e5ae27c9640b91ad92c730d6918c066a0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 009/103] fix: resume NeRF training after the last stored epoch

The epoch of the loaded checkpoint was trained again, with its learning rate, so
that every resumed training took one epoch too many and its schedule lagged.
---
 projects/nerf/train_nerf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/nerf/train_nerf.py b/projects/nerf/train_nerf.py
index edbea1f..c5615f9 100644
--- a/projects/nerf/train_nerf.py
+++ b/projects/nerf/train_nerf.py
@@ -84,7 +84,7 @@ def main(cfg: DictConfig):
             stats = pickle.loads(stats_data)
             print(f"   => resuming from epoch {stats.epoch}.")
             optimizer_state_dict = loaded_data["optimizer"]
-            start_epoch = stats.epoch
+            start_epoch = stats.epoch + 1
 
     # Initialize the optimizer.
     optimizer = torch.optim.Adam(
-- 
2.43.0


From e1e752095c42bf604be50614b4987e7b5a261b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 010/103] fix: do not count the time between two processes as
 iteration time

---
 pytorch3d/implicitron/tools/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 1b5343b..2b95bb1 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -128,6 +128,8 @@ class Stats:
         self = Stats([])
         # load the global state
         self.__dict__.update(json.loads(json_str))
+        # the time passed since the stored update is not an iteration time
+        self._t_last_update = None
         # recover the AverageMeters
         for stat_set in self.stats:
             self.stats[stat_set] = {
-- 
2.43.0


From b9db304cad66db831c587e0d916a2819d28c22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 011/103] fix: keep the CPU threads of sample_pdf inside the
 batch

---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..63b82f4 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -121,6 +121,9 @@ void SamplePdfCpu(
   const int64_t batch_elements_per_thread = 1 + (batch_size - 1) / n_threads;
   int64_t start_batch = 0;
   for (int iThread = 0; iThread < n_threads - 1; ++iThread) {
+    // Rounding up can leave less, or nothing, for the last threads.
+    const int64_t end_batch =
+        std::min(start_batch + batch_elements_per_thread, batch_size);
     threads.emplace_back(
         SamplePdfCpu_worker,
         bins,
@@ -128,8 +131,8 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
-    start_batch += batch_elements_per_thread;
+        end_batch);
+    start_batch = end_batch;
   }
 
   // The remaining batch elements are calculated in this threads. If nThreads is
-- 
2.43.0


From 68da172a979952259567cff689ac2924a5b4d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 012/103] fix: survive the failure to create a thread in CPU
 kernels

---
 .../rasterize_meshes/rasterize_meshes_cpu.cpp | 70 +++++++++++++------
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp  | 23 +++---
 2 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
index fce2cb7..b92cac9 100644
--- a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
+++ b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
@@ -8,6 +8,7 @@
 
 #include <torch/extension.h>
 #include <algorithm>
+#include <system_error>
 #include <thread>
 #include <tuple>
 #include "ATen/core/TensorAccessor.h"
@@ -357,28 +358,53 @@ RasterizeMeshesNaiveCpu(
   int start_yi = 0;
   for (int iThread = 0; iThread < n_threads; ++iThread) {
     const int64_t end_yi = std::min(start_yi + chunk_size, H);
-    threads.emplace_back(
-        RasterizeMeshesNaiveCpu_worker,
-        start_yi,
-        end_yi,
-        mesh_to_face_first_idx,
-        num_faces_per_mesh,
-        blur_radius,
-        perspective_correct,
-        clip_barycentric_coords,
-        cull_backfaces,
-        N,
-        H,
-        W,
-        K,
-        std::ref(face_verts_a),
-        std::ref(face_areas_a),
-        std::ref(face_bboxes_a),
-        std::ref(neighbor_idx_a),
-        std::ref(zbuf_a),
-        std::ref(face_idxs_a),
-        std::ref(pix_dists_a),
-        std::ref(barycentric_coords_a));
+    try {
+      threads.emplace_back(
+          RasterizeMeshesNaiveCpu_worker,
+          start_yi,
+          end_yi,
+          mesh_to_face_first_idx,
+          num_faces_per_mesh,
+          blur_radius,
+          perspective_correct,
+          clip_barycentric_coords,
+          cull_backfaces,
+          N,
+          H,
+          W,
+          K,
+          std::ref(face_verts_a),
+          std::ref(face_areas_a),
+          std::ref(face_bboxes_a),
+          std::ref(neighbor_idx_a),
+          std::ref(zbuf_a),
+          std::ref(face_idxs_a),
+          std::ref(pix_dists_a),
+          std::ref(barycentric_coords_a));
+    } catch (const std::system_error&) {
+      // No more threads can be created, so do the work in this one.
+      RasterizeMeshesNaiveCpu_worker(
+          start_yi,
+          end_yi,
+          mesh_to_face_first_idx,
+          num_faces_per_mesh,
+          blur_radius,
+          perspective_correct,
+          clip_barycentric_coords,
+          cull_backfaces,
+          N,
+          H,
+          W,
+          K,
+          face_verts_a,
+          face_areas_a,
+          face_bboxes_a,
+          neighbor_idx_a,
+          zbuf_a,
+          face_idxs_a,
+          pix_dists_a,
+          barycentric_coords_a);
+    }
     start_yi += chunk_size;
   }
   for (auto&& thread : threads) {
diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 63b82f4..c50c5ea 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -9,6 +9,7 @@
 #include <torch/csrc/autograd/VariableTypeUtils.h>
 #include <torch/extension.h>
 #include <algorithm>
+#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -124,14 +125,20 @@ void SamplePdfCpu(
     // Rounding up can leave less, or nothing, for the last threads.
     const int64_t end_batch =
         std::min(start_batch + batch_elements_per_thread, batch_size);
-    threads.emplace_back(
-        SamplePdfCpu_worker,
-        bins,
-        weights,
-        outputs,
-        eps,
-        start_batch,
-        end_batch);
+    try {
+      threads.emplace_back(
+          SamplePdfCpu_worker,
+          bins,
+          weights,
+          outputs,
+          eps,
+          start_batch,
+          end_batch);
+    } catch (const std::system_error&) {
+      // No more threads can be created, so do the work in this one.
+      SamplePdfCpu_worker(
+          bins, weights, outputs, eps, start_batch, end_batch);
+    }
     start_batch = end_batch;
   }
 
-- 
2.43.0


From 362d43ab796edc530339e45538a1bfec1a920567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 013/103] fix: clip batches that end with a mesh without faces

---
 pytorch3d/renderer/mesh/clip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..396fae9 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -445,10 +445,11 @@ def clip_faces(
 
     # Update version of mesh_to_face_first_idx and num_faces_per_mesh applicable to
     # face_verts_clipped
-    mesh_to_face_first_idx_clipped = faces_unclipped_to_clipped_idx[
-        mesh_to_face_first_idx
-    ]
     F_clipped_t = torch.full([1], F_clipped, dtype=torch.int64, device=device)
+    # Meshes without faces at the end of the batch start after the last face.
+    mesh_to_face_first_idx_clipped = torch.cat(
+        (faces_unclipped_to_clipped_idx, F_clipped_t)
+    )[mesh_to_face_first_idx]
     num_faces_next = torch.cat((mesh_to_face_first_idx_clipped[1:], F_clipped_t))
     num_faces_per_mesh_clipped = num_faces_next - mesh_to_face_first_idx_clipped
 
-- 
2.43.0


From eb9c253b6734069d3b014d947954ebcbc6d22bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 014/103] fix: do not write to shared tensors when Meshes and
 Pointclouds are moved in place

offset_verts_, scale_verts_, offset_ and scale_ wrote the new positions into
the padded tensor, which may be the tensor the caller passed to the constructor
or to update_padded, or be shared with a detached copy.
---
 pytorch3d/structures/meshes.py      | 4 ++++
 pytorch3d/structures/pointclouds.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..51c8f4c 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1324,6 +1324,8 @@ class Meshes:
 
         # update verts padded
         if self._verts_padded is not None:
+            # the tensor may be shared, e.g. with the caller
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(new_verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
@@ -1378,6 +1380,8 @@ class Meshes:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
         # update padded
         if self._verts_padded is not None:
+            # the tensor may be shared, e.g. with the caller
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(self._verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..41c4a96 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -903,6 +903,8 @@ class Pointclouds:
         # cannot be None even if not provided during construction.
         self._points_list = new_points_list
         if self._points_padded is not None:
+            # the tensor may be shared, e.g. with the caller
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
@@ -992,6 +994,8 @@ class Pointclouds:
         if self._points_packed is not None:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
+            # the tensor may be shared, e.g. with the caller
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
-- 
2.43.0


From b81b04cc30cb57fed2a09810cc07a9d44d3cd53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 015/103] fix: Meshes.update_padded while packed tensors are
 only partly computed

A failed or still running computation of the packed tensors in another thread
made update_padded fail with an AssertionError.
---
 pytorch3d/structures/meshes.py | 42 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 51c8f4c..19a08ef 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1459,17 +1459,16 @@ class Meshes:
         new._faces_list = self._faces_list
 
         # update verts/faces packed if they are computed in self
-        if self._verts_packed is not None:
-            copy_tensors = [
-                "_faces_packed",
-                "_verts_packed_to_mesh_idx",
-                "_faces_packed_to_mesh_idx",
-                "_mesh_to_verts_packed_first_idx",
-                "_mesh_to_faces_packed_first_idx",
-            ]
-            for k in copy_tensors:
-                v = getattr(self, k)
-                assert torch.is_tensor(v)
+        copy_tensors = [
+            "_faces_packed",
+            "_verts_packed_to_mesh_idx",
+            "_faces_packed_to_mesh_idx",
+            "_mesh_to_verts_packed_first_idx",
+            "_mesh_to_faces_packed_first_idx",
+        ]
+        values = [getattr(self, k) for k in copy_tensors]
+        if all(torch.is_tensor(v) for v in values):
+            for k, v in zip(copy_tensors, values):
                 setattr(new, k, v)  # shallow copy
             # update verts_packed
             pad_to_packed = self.verts_padded_to_packed_idx()
@@ -1478,17 +1477,16 @@ class Meshes:
             new._verts_padded_to_packed_idx = pad_to_packed
 
         # update edges packed if they are computed in self
-        if self._edges_packed is not None:
-            copy_tensors = [
-                "_edges_packed",
-                "_edges_packed_to_mesh_idx",
-                "_mesh_to_edges_packed_first_idx",
-                "_faces_packed_to_edges_packed",
-                "_num_edges_per_mesh",
-            ]
-            for k in copy_tensors:
-                v = getattr(self, k)
-                assert torch.is_tensor(v)
+        copy_tensors = [
+            "_edges_packed",
+            "_edges_packed_to_mesh_idx",
+            "_mesh_to_edges_packed_first_idx",
+            "_faces_packed_to_edges_packed",
+            "_num_edges_per_mesh",
+        ]
+        values = [getattr(self, k) for k in copy_tensors]
+        if all(torch.is_tensor(v) for v in values):
+            for k, v in zip(copy_tensors, values):
                 setattr(new, k, v)  # shallow copy
 
         # update laplacian if it is compute in self
-- 
2.43.0


From 1c3c71019189832965756ff5fd26b12628e57c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 016/103] fix: Pointclouds keeps normals and features when
 computing them fails

The points were stored first, so that after a failed computation, or in a
concurrent reader, the padded or packed normals and features were missing.
---
 pytorch3d/structures/pointclouds.py | 35 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 41c4a96..261712b 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -623,19 +623,21 @@ class Pointclouds:
         if not (refresh or self._points_padded is None):
             return
 
-        self._normals_padded, self._features_padded = None, None
+        # The points are stored last: _points_padded tells that all are there.
         if self.isempty():
+            self._normals_padded, self._features_padded = None, None
             self._points_padded = torch.zeros((self._N, 0, 3), device=self.device)
         else:
-            self._points_padded = struct_utils.list_to_padded(
+            points_padded = struct_utils.list_to_padded(
                 self.points_list(),
                 (self._P, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
+            normals_padded, features_padded = None, None
             normals_list = self.normals_list()
             if normals_list is not None:
-                self._normals_padded = struct_utils.list_to_padded(
+                normals_padded = struct_utils.list_to_padded(
                     normals_list,
                     (self._P, 3),
                     pad_value=0.0,
@@ -643,13 +645,16 @@ class Pointclouds:
                 )
             features_list = self.features_list()
             if features_list is not None:
-                self._features_padded = struct_utils.list_to_padded(
+                features_padded = struct_utils.list_to_padded(
                     features_list,
                     # pyrefly: ignore [bad-argument-type]
                     (self._P, self._C),
                     pad_value=0.0,
                     equisized=self.equisized,
                 )
+            self._normals_padded = normals_padded
+            self._features_padded = features_padded
+            self._points_padded = points_padded
 
     # TODO(nikhilar) Improve performance of _compute_packed.
     def _compute_packed(self, refresh: bool = False):
@@ -680,7 +685,10 @@ class Pointclouds:
         points_list = self.points_list()
         normals_list = self.normals_list()
         features_list = self.features_list()
+        # The tensors which tell that all are computed are stored last.
         if self.isempty():
+            self._normals_packed = None
+            self._features_packed = None
             self._points_packed = torch.zeros(
                 (0, 3), dtype=torch.float32, device=self.device
             )
@@ -690,26 +698,25 @@ class Pointclouds:
             self._cloud_to_packed_first_idx = torch.zeros(
                 (0,), dtype=torch.int64, device=self.device
             )
-            self._normals_packed = None
-            self._features_packed = None
             return
 
         points_list_to_packed = struct_utils.list_to_packed(points_list)
-        self._points_packed = points_list_to_packed[0]
         # pyrefly: ignore [bad-argument-type]
         if not torch.allclose(self._num_points_per_cloud, points_list_to_packed[1]):
             raise ValueError("Inconsistent list to packed conversion")
-        self._cloud_to_packed_first_idx = points_list_to_packed[2]
-        self._packed_to_cloud_idx = points_list_to_packed[3]
 
-        self._normals_packed, self._features_packed = None, None
+        normals_packed, features_packed = None, None
         if normals_list is not None:
-            normals_list_to_packed = struct_utils.list_to_packed(normals_list)
-            self._normals_packed = normals_list_to_packed[0]
+            normals_packed = struct_utils.list_to_packed(normals_list)[0]
 
         if features_list is not None:
-            features_list_to_packed = struct_utils.list_to_packed(features_list)
-            self._features_packed = features_list_to_packed[0]
+            features_packed = struct_utils.list_to_packed(features_list)[0]
+
+        self._normals_packed = normals_packed
+        self._features_packed = features_packed
+        self._cloud_to_packed_first_idx = points_list_to_packed[2]
+        self._packed_to_cloud_idx = points_list_to_packed[3]
+        self._points_packed = points_list_to_packed[0]
 
     def clone(self):
         """
-- 
2.43.0


From c966c04a65ef97c7bfdf19f5a44bf1c4f0802b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 017/103] fix: Pointclouds.update_padded keeps normals and
 features given as lists

Unless the padded representation had been computed before, normals_padded and
features_padded of the result were None.
---
 pytorch3d/structures/pointclouds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 261712b..ccc35d1 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -1172,15 +1172,16 @@ class Pointclouds:
         # copy normals
         if new_normals_padded is None:
             # If no normals are provided, keep old ones (shallow copy)
+            new._normals_padded = self.normals_padded()
             new._normals_list = self._normals_list
-            new._normals_padded = self._normals_padded
             new._normals_packed = self._normals_packed
 
         # copy features
         if new_features_padded is None:
             # If no features are provided, keep old ones (shallow copy)
+            new._features_padded = self.features_padded()
             new._features_list = self._features_list
-            new._features_padded = self._features_padded
+            new._C = self._C
             new._features_packed = self._features_packed
 
         # copy auxiliary tensors
-- 
2.43.0


From f3d80403f290b237c5848be44710acceee1929a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 018/103] fix: saving a glb file does not flip the caller's
 texture coordinates

---
 pytorch3d/io/experimental_gltf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2073d12..b5e2b0d 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -627,7 +627,7 @@ class _GLTFWriter:
         elif key == "texcoords":
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
-            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy()
+            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy().copy()
             data[:, 1] = 1 - data[:, -1]  # flip y tex-coordinate
             element_type = "VEC2"
             buffer_view = 2
-- 
2.43.0


From f0f32076678edc5bf2762f9acfd320c90c98a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 019/103] fix: textured meshes with an odd number of faces
 saved as glb can be loaded

---
 pytorch3d/io/experimental_gltf_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index b5e2b0d..9b6596a 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -760,7 +760,9 @@ class _GLTFWriter:
         byte_offset += pos_byte
 
         self._write_bufferview("indices", byte_length=idx_byte, offset=byte_offset)
-        byte_offset += idx_byte
+        # The items of the next bufferView must be aligned
+        idx_padding = -idx_byte % 4
+        byte_offset += idx_byte + idx_padding
 
         if include_textures:
             if texcoords:
@@ -802,6 +804,7 @@ class _GLTFWriter:
         self.buffer_stream.write(struct.pack("<II", byte_offset, _BINARY_CHUNK_TYPE))
         self.buffer_stream.write(pos_data)
         self.buffer_stream.write(idx_data)
+        self.buffer_stream.write(bytes(idx_padding))
         if include_textures:
             self.buffer_stream.write(tex_data)
         if include_image:
-- 
2.43.0


From b665654203f27d1d60b3539947cda097fa9bc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 020/103] fix: glb files of meshes with more than 65535
 vertices

---
 pytorch3d/io/experimental_gltf_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 9b6596a..43fd11f 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -645,6 +645,8 @@ class _GLTFWriter:
             byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
         elif key == "indices":
             component_type = _ComponentType.UNSIGNED_SHORT
+            if len(self.mesh.verts_packed()) > 65535:
+                component_type = _ComponentType.UNSIGNED_INT
             data = (
                 self.mesh.faces_packed()
                 .cpu()
@@ -655,9 +657,7 @@ class _GLTFWriter:
             buffer_view = 1
             element_min = list(map(int, np.min(data, keepdims=True)))
             element_max = list(map(int, np.max(data, keepdims=True)))
-            byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
-            )
+            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[component_type]]
         else:
             raise NotImplementedError(
                 "invalid key accessor, should be one of positions, indices or texcoords"
-- 
2.43.0


From 465f50b98db97344c180f0723183a00365aaf1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 021/103] fix: stop at the end of truncated ply and off headers

---
 pytorch3d/io/off_io.py | 12 +++++++++---
 pytorch3d/io/ply_io.py |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 0ef4049..c268d9b 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -232,16 +232,22 @@ def _load_off_stream(file) -> dict:
         faces: LongTensor of vertex indices, split into triangles, shape (F, 3).
         faces_colors: FloatTensor of shape (F, C), where C is 3 or 4.
     """
-    header = file.readline()
+    def read_header_line() -> bytes:
+        line = file.readline()
+        if len(line) == 0:
+            raise ValueError("File ended in the header.")
+        return line
+
+    header = read_header_line()
 
     while _is_line_empty(header):
-        header = file.readline()
+        header = read_header_line()
 
     if header[:3].lower() == b"off":
         header = header[3:]
 
     while _is_line_empty(header):
-        header = file.readline()
+        header = read_header_line()
 
     items = header.split()
     if len(items) < 3:
diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ec517b2..debac96 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -161,6 +161,8 @@ class _PlyHeader:
         self.obj_info: List[str] = []
         while True:
             line = f.readline()
+            if len(line) == 0:
+                raise ValueError("File ended in the header.")
             if isinstance(line, bytes):
                 line = line.decode("ascii")
             line = line.strip()
-- 
2.43.0


From e77a4fc987e733217c57967830f92fd991a01e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 022/103] fix: binary ply data in file-like objects which are
 not plain files

---
 pytorch3d/io/ply_io.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index debac96..104ae25 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -19,7 +19,7 @@ import sys
 import warnings
 from collections import namedtuple
 from dataclasses import asdict, dataclass
-from io import BytesIO, TextIOBase
+from io import TextIOBase
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -498,18 +498,12 @@ def _read_raw_array(
         new numpy array
     """
 
-    if isinstance(f, BytesIO):
-        # np.fromfile is faster but won't work on a BytesIO
-        needed_bytes = length * dtype_size
-        bytes_data = bytearray(needed_bytes)
-        n_bytes_read = f.readinto(bytes_data)
-        if n_bytes_read != needed_bytes:
-            raise ValueError("Not enough data for %s." % aim)
-        data = np.frombuffer(bytes_data, dtype=dtype)
-    else:
-        data = np.fromfile(f, dtype=dtype, count=length)
-        if data.shape[0] != length:
-            raise ValueError("Not enough data for %s." % aim)
+    # np.fromfile would only work on a real file, not on other file-like objects
+    needed_bytes = length * dtype_size
+    bytes_data = bytearray(f.read(needed_bytes))
+    if len(bytes_data) != needed_bytes:
+        raise ValueError("Not enough data for %s." % aim)
+    data = np.frombuffer(bytes_data, dtype=dtype)
     return data
 
 
@@ -1287,11 +1281,8 @@ def _save_ply(
             for data, format in zip(line_data, formats):
                 f.write(format % tuple(data))
     else:
-        if isinstance(f, BytesIO):
-            # tofile only works with real files, but is faster than this.
-            f.write(vert_data.tobytes())
-        else:
-            vert_data.tofile(f)
+        # tofile only works with real files, and does not report all errors.
+        f.write(vert_data.tobytes())
 
     if faces is not None:
         faces_array = faces.detach().cpu().numpy()
@@ -1310,10 +1301,7 @@ def _save_ply(
                 faces_recs["vertex_indices"] = faces_array
                 faces_uints = faces_recs.view(np.uint8)
 
-                if isinstance(f, BytesIO):
-                    f.write(faces_uints.tobytes())
-                else:
-                    faces_uints.tofile(f)
+                f.write(faces_uints.tobytes())
 
 
 def save_ply(
-- 
2.43.0


From 6a26af675202ffd684621d98540b6d33e30127da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 023/103] fix: load ascii ply files from text file objects

---
 pytorch3d/io/ply_io.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 104ae25..96bee1a 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -252,6 +252,18 @@ class _PlyHeader:
         self.elements.append(_PlyElementType(items[1], count))
 
 
+def _iter_lines(f):
+    """
+    Yield the lines of f. Unlike iterating on f, this does not stop f.tell()
+    from working when f is a text file.
+    """
+    while True:
+        line = f.readline()
+        if len(line) == 0:
+            return
+        yield line
+
+
 def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
     """
     Given an element which has no lists and one type, read the
@@ -279,7 +291,11 @@ def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
             "ignore", message=".* Empty input file.*", category=UserWarning
         )
         data = np.loadtxt(
-            f, dtype=np_type, comments=None, ndmin=2, max_rows=definition.count
+            _iter_lines(f),
+            dtype=np_type,
+            comments=None,
+            ndmin=2,
+            max_rows=definition.count,
         )
     if not len(data):  # np.loadtxt() seeks even on empty data
         f.seek(old_offset)
@@ -322,7 +338,11 @@ def _read_ply_nolist_element_ascii(f, definition: _PlyElementType):
             "ignore", message=".* Empty input file.*", category=UserWarning
         )
         data = np.loadtxt(
-            f, dtype=np.float64, comments=None, ndmin=2, max_rows=definition.count
+            _iter_lines(f),
+            dtype=np.float64,
+            comments=None,
+            ndmin=2,
+            max_rows=definition.count,
         )
     if not len(data):  # np.loadtxt() seeks even on empty data
         f.seek(old_offset)
@@ -385,7 +405,11 @@ def _try_read_ply_constant_list_ascii(f, definition: _PlyElementType):
                 "ignore", message=".* Empty input file.*", category=UserWarning
             )
             data = np.loadtxt(
-                f, dtype=np_type, comments=None, ndmin=2, max_rows=definition.count
+                _iter_lines(f),
+                dtype=np_type,
+                comments=None,
+                ndmin=2,
+                max_rows=definition.count,
             )
     except ValueError:
         f.seek(old_offset)
-- 
2.43.0


From d7aaa2e2a3722b8655ec19eb41bea80773863394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 024/103] fix: save the texture and material of an obj file
 with the path manager

---
 pytorch3d/io/obj_io.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e1862fc..cc1abfa 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -763,15 +763,15 @@ def save_obj(
 
     # Save the .obj file
     # pyre-fixme[9]: f has type `Union[Path, str]`; used as `IO[typing.Any]`.
-    with _open_file(f, path_manager, "w") as f:
+    with _open_file(f, path_manager, "w") as f_obj:
         if save_texture:
             # Add the header required for the texture info to be loaded correctly
             obj_header = "\nmtllib {0}.mtl\nusemtl mesh\n\n".format(output_path.stem)
             # pyre-fixme[16]: Item `Path` of `Union[Path, str]` has no attribute
             #  `write`.
-            f.write(obj_header)
+            f_obj.write(obj_header)
         _save(
-            f,
+            f_obj,
             verts,
             faces,
             decimal_places,
@@ -788,16 +788,17 @@ def save_obj(
         image_path = output_path.with_suffix(".png")
         mtl_path = output_path.with_suffix(".mtl")
         if isinstance(f, str):
-            # Back to str for iopath interpretation.
-            image_path = str(image_path)
-            mtl_path = str(mtl_path)
+            # Back to str for iopath interpretation. A Path would not keep
+            # a prefix like "scheme://" intact.
+            image_path = os.path.splitext(f)[0] + ".png"
+            mtl_path = os.path.splitext(f)[0] + ".mtl"
 
         # Save texture map to output folder
         # pyre-fixme[16] # undefined attribute cpu
         texture_map = texture_map.detach().cpu() * 255.0
         image = Image.fromarray(texture_map.numpy().astype(np.uint8))
         with _open_file(image_path, path_manager, "wb") as im_f:
-            image.save(im_f)
+            image.save(im_f, format="PNG")
 
         # Create .mtl file with the material name and texture map filename
         # TODO: enable material properties to also be saved.
-- 
2.43.0


From 5110a4542d852f1c4c4bbd1aa3a2131aaa45d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 025/103] fix: number faces across the batch in
 MeshRasterizerOpenGL

Fragments.pix_to_face holds indices into faces_packed. For every mesh but
the first, MeshRasterizerOpenGL returned indices within the mesh, so shaders
took colours and normals from other meshes.
---
 pytorch3d/renderer/opengl/rasterizer_opengl.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/opengl/rasterizer_opengl.py b/pytorch3d/renderer/opengl/rasterizer_opengl.py
index 0d7ad9a..901738a 100644
--- a/pytorch3d/renderer/opengl/rasterizer_opengl.py
+++ b/pytorch3d/renderer/opengl/rasterizer_opengl.py
@@ -265,8 +265,8 @@ class _OpenGLMachinery:
                 width stored in global_device_context_store.
 
         Returns:
-            pix_to_faces: A BHW1 tensor of ints, filled with -1 where no face projects
-                to a given pixel.
+            pix_to_faces: A BHW1 tensor of ints (indices into faces_packed), filled with
+                -1 where no face projects to a given pixel.
             bary_coords: A BHW3 float tensor, filled with -1 where no face projects to
                 a given pixel.
             zbuf: A BHW1 float tensor, filled with 1 where no face projects to a given
@@ -287,6 +287,7 @@ class _OpenGLMachinery:
             pix_to_faces = []
             bary_coords = []
             zbufs = []
+            first_face_idx = 0
 
             # pyre-ignore Incompatible parameter type [6]
             for mesh_id, mesh in enumerate(meshes_gl_ndc):
@@ -299,7 +300,14 @@ class _OpenGLMachinery:
                         else None
                     ),
                 )
-                pix_to_faces.append(pix_to_face)
+                # Faces are numbered within the mesh so far. Fragments use the
+                # index of the face in faces_packed().
+                pix_to_faces.append(
+                    torch.where(
+                        pix_to_face >= 0, pix_to_face + first_face_idx, pix_to_face
+                    )
+                )
+                first_face_idx += len(mesh.faces_packed())
                 bary_coords.append(bary_coord)
                 zbufs.append(zbuf)
 
-- 
2.43.0


From 7b5bc2536eb2e0dfd5d2319e5cc4a3372b3f0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 026/103] fix: EGLContext.release keeps its lock when EGL
 reports an error

---
 pytorch3d/renderer/opengl/opengl_utils.py | 45 +++++++++++------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/pytorch3d/renderer/opengl/opengl_utils.py b/pytorch3d/renderer/opengl/opengl_utils.py
index e8185b0..2fcd141 100755
--- a/pytorch3d/renderer/opengl/opengl_utils.py
+++ b/pytorch3d/renderer/opengl/opengl_utils.py
@@ -252,29 +252,28 @@ class EGLContext:
         """
         Release the context's resources.
         """
-        self.lock.acquire()
-        try:
-            if self.surface:
-                egl.eglDestroySurface(self.dpy, self.surface)
-            if self.context and self.dpy:
-                egl.eglDestroyContext(self.dpy, self.context)
-            egl.eglMakeCurrent(
-                self.dpy, egl.EGL_NO_SURFACE, egl.EGL_NO_SURFACE, egl.EGL_NO_CONTEXT
-            )
-            if self.dpy:
-                egl.eglTerminate(self.dpy)
-        except EGLError as err:
-            print(
-                f"EGL could not release context on device cuda:{self.cuda_device_id}."
-                " This can happen if you created two contexts on the same device."
-                " Instead, you can use DeviceContextStore to use a single context"
-                " per device, and EGLContext.make_(in)active_in_current_thread to"
-                " (in)activate the context as needed."
-            )
-            raise err
-
-        egl.eglReleaseThread()
-        self.lock.release()
+        with self.lock:
+            try:
+                if self.surface:
+                    egl.eglDestroySurface(self.dpy, self.surface)
+                if self.context and self.dpy:
+                    egl.eglDestroyContext(self.dpy, self.context)
+                egl.eglMakeCurrent(
+                    self.dpy, egl.EGL_NO_SURFACE, egl.EGL_NO_SURFACE, egl.EGL_NO_CONTEXT
+                )
+                if self.dpy:
+                    egl.eglTerminate(self.dpy)
+            except EGLError as err:
+                print(
+                    f"EGL could not release context on device cuda:{self.cuda_device_id}."
+                    " This can happen if you created two contexts on the same device."
+                    " Instead, you can use DeviceContextStore to use a single context"
+                    " per device, and EGLContext.make_(in)active_in_current_thread to"
+                    " (in)activate the context as needed."
+                )
+                raise err
+
+            egl.eglReleaseThread()
 
 
 class _DeviceContextStore:
-- 
2.43.0


From c7ad64b5c5a0d40b3981a45dccaa4c31f998d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 027/103] fix: a failed transfer to OpenGL leaves the CUDA
 context pushed and the buffer mapped

---
 pytorch3d/renderer/opengl/opengl_utils.py     | 40 ++++++++++---------
 .../renderer/opengl/rasterizer_opengl.py      | 12 +++---
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/pytorch3d/renderer/opengl/opengl_utils.py b/pytorch3d/renderer/opengl/opengl_utils.py
index 2fcd141..51f7dad 100755
--- a/pytorch3d/renderer/opengl/opengl_utils.py
+++ b/pytorch3d/renderer/opengl/opengl_utils.py
@@ -423,25 +423,27 @@ def _init_cuda_context(device_id: int = 0):
 def _torch_to_opengl(torch_tensor, cuda_context, cuda_buffer):
     # CUDA access to the OpenGL buffer is only allowed within a map-unmap block.
     cuda_context.push()
-    mapping_obj = cuda_buffer.map()
-
-    # data_ptr points to the OpenGL shader storage buffer memory.
-    data_ptr, sz = mapping_obj.device_ptr_and_size()
-
-    # Copy the torch tensor to the OpenGL buffer directly on device.
-    cuda_copy = cuda.Memcpy2D()
-    cuda_copy.set_src_device(torch_tensor.data_ptr())
-    cuda_copy.set_dst_device(data_ptr)
-    cuda_copy.width_in_bytes = cuda_copy.src_pitch = cuda_copy.dst_ptch = (
-        torch_tensor.shape[1] * 4
-    )
-    cuda_copy.height = torch_tensor.shape[0]
-    cuda_copy(False)
-
-    # Unmap and pop the cuda context to make sure OpenGL won't interfere with
-    # PyTorch ops down the line.
-    mapping_obj.unmap()
-    cuda_context.pop()
+    try:
+        mapping_obj = cuda_buffer.map()
+        try:
+            # data_ptr points to the OpenGL shader storage buffer memory.
+            data_ptr, sz = mapping_obj.device_ptr_and_size()
+
+            # Copy the torch tensor to the OpenGL buffer directly on device.
+            cuda_copy = cuda.Memcpy2D()
+            cuda_copy.set_src_device(torch_tensor.data_ptr())
+            cuda_copy.set_dst_device(data_ptr)
+            cuda_copy.width_in_bytes = cuda_copy.src_pitch = cuda_copy.dst_ptch = (
+                torch_tensor.shape[1] * 4
+            )
+            cuda_copy.height = torch_tensor.shape[0]
+            cuda_copy(False)
+        finally:
+            # Unmap and pop the cuda context to make sure OpenGL won't interfere with
+            # PyTorch ops down the line.
+            mapping_obj.unmap()
+    finally:
+        cuda_context.pop()
 
 
 # Initialize a global _DeviceContextStore. Almost always we will only need a single one.
diff --git a/pytorch3d/renderer/opengl/rasterizer_opengl.py b/pytorch3d/renderer/opengl/rasterizer_opengl.py
index 901738a..bc199a5 100644
--- a/pytorch3d/renderer/opengl/rasterizer_opengl.py
+++ b/pytorch3d/renderer/opengl/rasterizer_opengl.py
@@ -348,11 +348,13 @@ class _OpenGLMachinery:
 
                 # Register the input buffer with pycuda, to transfer data directly into it.
                 self.cuda_context.push()
-                self.cuda_buffer = pycuda.gl.RegisteredBuffer(
-                    int(self.mesh_buffer_object),
-                    pycuda.gl.graphics_map_flags.WRITE_DISCARD,
-                )
-                self.cuda_context.pop()
+                try:
+                    self.cuda_buffer = pycuda.gl.RegisteredBuffer(
+                        int(self.mesh_buffer_object),
+                        pycuda.gl.graphics_map_flags.WRITE_DISCARD,
+                    )
+                finally:
+                    self.cuda_context.pop()
 
             global_device_context_store.set_context_data(
                 device,
-- 
2.43.0


From 8f84fa30c30db6455196453985b7a0608c98126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 028/103] fix: threads rendering on a new device at once both
 set up its OpenGL program

The buffers of the one were then used with the bindings of the other, and
the images were wrong.
---
 .../renderer/opengl/rasterizer_opengl.py      | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/renderer/opengl/rasterizer_opengl.py b/pytorch3d/renderer/opengl/rasterizer_opengl.py
index bc199a5..e2fee65 100644
--- a/pytorch3d/renderer/opengl/rasterizer_opengl.py
+++ b/pytorch3d/renderer/opengl/rasterizer_opengl.py
@@ -329,9 +329,10 @@ class _OpenGLMachinery:
         self.egl_context = global_device_context_store.get_egl_context(device)
         self.cuda_context = global_device_context_store.get_cuda_context(device)
 
-        # self.program represents the OpenGL program we use for rasterization.
-        if global_device_context_store.get_context_data(device) is None:
-            with self.egl_context.active_and_locked():
+        # self.program represents the OpenGL program we use for rasterization. Two
+        # threads must not both create it: look for it while holding the lock.
+        with self.egl_context.active_and_locked():
+            if global_device_context_store.get_context_data(device) is None:
                 self.program = self._compile_and_link_gl_program()
                 self._set_up_gl_program_properties(self.program)
 
@@ -356,17 +357,17 @@ class _OpenGLMachinery:
                 finally:
                     self.cuda_context.pop()
 
-            global_device_context_store.set_context_data(
-                device,
-                (
-                    self.program,
-                    self.perspective_projection_uniform,
-                    self.mesh_buffer_object,
-                    self.vao,
-                    self.fbo,
-                    self.cuda_buffer,
-                ),
-            )
+                global_device_context_store.set_context_data(
+                    device,
+                    (
+                        self.program,
+                        self.perspective_projection_uniform,
+                        self.mesh_buffer_object,
+                        self.vao,
+                        self.fbo,
+                        self.cuda_buffer,
+                    ),
+                )
         (
             self.program,
             self.perspective_projection_uniform,
-- 
2.43.0


From 37b2a11e57f55feb5e547a8547cd14f081c1eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 029/103] fix: copies of a MeshRasterizerOpenGL on several
 devices mix up their device data

DataParallel replicas share the object which held the contexts and buffers
of the device being rendered on, so threads overwrote each other's.
---
 .../renderer/opengl/rasterizer_opengl.py      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pytorch3d/renderer/opengl/rasterizer_opengl.py b/pytorch3d/renderer/opengl/rasterizer_opengl.py
index e2fee65..7099f70 100644
--- a/pytorch3d/renderer/opengl/rasterizer_opengl.py
+++ b/pytorch3d/renderer/opengl/rasterizer_opengl.py
@@ -10,6 +10,7 @@
 # if you do not have pycuda.gl and pyopengl installed. In addition, please make sure
 # your Python application *does not* import OpenGL before importing PyTorch3D, unless
 # you are using the EGL backend.
+import copy
 import warnings
 from typing import Optional, Tuple, Union
 
@@ -276,6 +277,24 @@ class _OpenGLMachinery:
                 sections.
         """
 
+        # Copies of a rasterizer made by DataParallel share this object, and render on
+        # their devices at the same time. So set up the device data on a copy.
+        machinery = copy.copy(self)
+        try:
+            return machinery._rasterize(meshes_gl_ndc, projection_matrix, image_size)
+        finally:
+            # What release() frees: the data of the device used last.
+            vars(self).update(vars(machinery))
+
+    def _rasterize(
+        self,
+        meshes_gl_ndc: Meshes,
+        projection_matrix: torch.Tensor,
+        image_size: Tuple[int, int],
+    ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
+        """
+        See __call__. This sets the members of self for the device of the meshes.
+        """
         self.initialize_device_data(meshes_gl_ndc.device)
         # pyrefly: ignore [missing-attribute]
         with self.egl_context.active_and_locked():
-- 
2.43.0


From fd0cb84d80cee3e21962f97a9f4f4797c5ff71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 030/103] fix: MeshRasterizerOpenGL fails for meshes above the
 max_faces_opengl of the first rasterizer

The input buffer of a device was as large as the first rasterizer used on it
asked for, whatever later ones asked for.
---
 pytorch3d/renderer/opengl/rasterizer_opengl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/opengl/rasterizer_opengl.py b/pytorch3d/renderer/opengl/rasterizer_opengl.py
index 7099f70..59108b3 100644
--- a/pytorch3d/renderer/opengl/rasterizer_opengl.py
+++ b/pytorch3d/renderer/opengl/rasterizer_opengl.py
@@ -351,7 +351,9 @@ class _OpenGLMachinery:
         # self.program represents the OpenGL program we use for rasterization. Two
         # threads must not both create it: look for it while holding the lock.
         with self.egl_context.active_and_locked():
-            if global_device_context_store.get_context_data(device) is None:
+            data = global_device_context_store.get_context_data(device)
+            if data is None or data[-1] < self.max_faces:
+                # The buffer of an earlier rasterizer can be too small for this one.
                 self.program = self._compile_and_link_gl_program()
                 self._set_up_gl_program_properties(self.program)
 
@@ -385,6 +387,7 @@ class _OpenGLMachinery:
                         self.vao,
                         self.fbo,
                         self.cuda_buffer,
+                        self.max_faces,
                     ),
                 )
         (
@@ -394,6 +397,7 @@ class _OpenGLMachinery:
             self.vao,
             self.fbo,
             self.cuda_buffer,
+            _,
         ) = global_device_context_store.get_context_data(device)
 
     def release(self) -> None:
@@ -481,6 +485,7 @@ class _OpenGLMachinery:
         verts_packed = mesh.verts_packed().detach()
         faces_packed = mesh.faces_packed().detach()
         face_verts = verts_packed[faces_packed].reshape(-1, 9)
+        gl.glBindBufferBase(gl.GL_SHADER_STORAGE_BUFFER, 0, self.mesh_buffer_object)
         _torch_to_opengl(face_verts, self.cuda_context, self.cuda_buffer)
 
         if projection_matrix is not None:
-- 
2.43.0


From 5e2a46785f78fd04737f20904af725a691651f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 031/103] fix: sequence_frames_in_order returns wrong frame
 indices with a subset filter

---
 pytorch3d/implicitron/dataset/dataset_base.py | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_base.py b/pytorch3d/implicitron/dataset/dataset_base.py
index 78e6f20..1a7f0fb 100644
--- a/pytorch3d/implicitron/dataset/dataset_base.py
+++ b/pytorch3d/implicitron/dataset/dataset_base.py
@@ -122,16 +122,17 @@ class DatasetBase(GenericWorkaround, torch.utils.data.Dataset[FrameData]):
         """
         # pyre-ignore[16]
         seq_frame_indices = self._seq_to_idx[seq_name]
-        nos_timestamps = self.get_frame_numbers_and_timestamps(
-            seq_frame_indices, subset_filter
-        )
-
-        yield from sorted(
-            [
-                (timestamp, frame_no, idx)
-                for idx, (frame_no, timestamp) in zip(seq_frame_indices, nos_timestamps)
-            ]
-        )
+        # ask frame by frame: frames outside of the subsets are left out of the
+        # answer, which would not align with `seq_frame_indices` any more
+        frames = [
+            (timestamp, frame_no, idx)
+            for idx in seq_frame_indices
+            for frame_no, timestamp in self.get_frame_numbers_and_timestamps(
+                [idx], subset_filter
+            )
+        ]
+
+        yield from sorted(frames)
 
     def sequence_indices_in_order(
         self, seq_name: str, subset_filter: Optional[Sequence[str]] = None
-- 
2.43.0


From 2b7c76f21bca5d5777ec05b52f9de29db79c5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 032/103] fix: replace absent timestamps of JsonIndexDataset
 with zeros, as documented

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 2ea4b09..3e99ddf 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -651,8 +651,9 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                 continue
 
             frame_annotation = self.frame_annots[idx]["frame_annotation"]
+            timestamp = frame_annotation.frame_timestamp
             out.append(
-                (frame_annotation.frame_number, frame_annotation.frame_timestamp)
+                (frame_annotation.frame_number, 0.0 if timestamp is None else timestamp)
             )
         return out
 
-- 
2.43.0


From e05e21aa8bc19cadb691b63e375c502cc7a2d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 033/103] fix: evaluation batches of joined JsonIndexDatasets
 refer to wrong frames

---
 .../implicitron/dataset/json_index_dataset.py | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 3e99ddf..aa334a9 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -7,7 +7,6 @@
 # pyre-unsafe
 
 import copy
-import functools
 import gzip
 import hashlib
 import json
@@ -216,19 +215,9 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
             other_datasets: A list of JsonIndexDataset objects to be joined
                 into the current dataset.
         """
+        other_datasets = list(other_datasets)
         if not all(isinstance(d, JsonIndexDataset) for d in other_datasets):
             raise ValueError("This function can only join a list of JsonIndexDataset")
-        # pyre-ignore[16]
-        self.frame_annots.extend([fa for d in other_datasets for fa in d.frame_annots])
-        # pyre-ignore[16]
-        self.seq_annots.update(
-            # https://gist.github.com/treyhunner/f35292e676efa0be1728
-            functools.reduce(
-                lambda a, b: {**a, **b},
-                # pyre-ignore[16]
-                [d.seq_annots for d in other_datasets],
-            )
-        )
         all_eval_batches = [
             self.eval_batches,
             *[d.eval_batches for d in other_datasets],  # pyre-ignore[16]
@@ -242,7 +231,20 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                 " eval_batches defined, or all should have their eval batches undefined."
             )
         if self.eval_batches is not None:
-            self.eval_batches = sum(all_eval_batches, [])
+            # the indices have to point to the frames of the joined dataset
+            joined_eval_batches = []
+            offset = 0
+            for d, batches in zip([self, *other_datasets], all_eval_batches):
+                joined_eval_batches.extend(
+                    [[idx + offset for idx in batch] for batch in batches]
+                )
+                offset += len(d)
+            self.eval_batches = joined_eval_batches
+        # pyre-ignore[16]
+        self.frame_annots.extend([fa for d in other_datasets for fa in d.frame_annots])
+        for d in other_datasets:
+            # pyre-ignore[16]
+            self.seq_annots.update(d.seq_annots)
         self._invalidate_indexes(filter_seq_annots=True)
 
     def is_filtered(self) -> bool:
-- 
2.43.0


From f7512377a9099729dc76a30258efec620ce02cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 034/103] fix: DatasetMap.join repeats the frames of datasets
 shared between its subsets

---
 pytorch3d/implicitron/dataset/dataset_map_provider.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_map_provider.py b/pytorch3d/implicitron/dataset/dataset_map_provider.py
index 7133b36..c14a221 100644
--- a/pytorch3d/implicitron/dataset/dataset_map_provider.py
+++ b/pytorch3d/implicitron/dataset/dataset_map_provider.py
@@ -67,6 +67,8 @@ class DatasetMap:
             other_dataset_maps: The list of dataset maps to be joined into the
                 current dataset map.
         """
+        other_dataset_maps = list(other_dataset_maps)
+        joined = {}  # the same dataset can be used for more than one subset
         for set_ in ["train", "val", "test"]:
             dataset_list = [
                 getattr(self, set_),
@@ -77,8 +79,10 @@ class DatasetMap:
                 setattr(self, set_, None)
                 continue
             d0 = dataset_list[0]
-            if len(dataset_list) > 1:
+            dataset_ids = tuple(id(d) for d in dataset_list)
+            if len(dataset_list) > 1 and dataset_ids not in joined:
                 d0.join(dataset_list[1:])
+                joined[dataset_ids] = d0
             setattr(self, set_, d0)
 
 
-- 
2.43.0


From d3b3a3ee8e582eed3a116405abf0a678364d0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 035/103] fix: JsonIndexDataset lists sequences that have no
 frames in it

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index aa334a9..81c06fe 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -632,8 +632,9 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         # pyre-ignore[16]
         for idx, entry in enumerate(self.frame_annots):
             seq_to_idx[entry["frame_annotation"].sequence_name].append(idx)
+        # looking up the name of an absent sequence must not add it
         # pyre-ignore[16]
-        self._seq_to_idx = seq_to_idx
+        self._seq_to_idx = dict(seq_to_idx)
 
     def _local_path(self, path: str) -> str:
         if self.path_manager is None:
@@ -663,7 +664,9 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         c2seq = defaultdict(list)
         # pyre-ignore
         for sequence_name, sa in self.seq_annots.items():
-            c2seq[sa.category].append(sequence_name)
+            # pyre-ignore[16]
+            if sequence_name in self._seq_to_idx:  # has frames after all filters
+                c2seq[sa.category].append(sequence_name)
         return dict(c2seq)
 
     def get_eval_batches(self) -> Optional[List[List[int]]]:
-- 
2.43.0


From 36f4ded5668ce68d1a8e4ab1f7a6a597a1e794d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 036/103] fix: annotation lists of different lengths are cut to
 the shortest when loaded

---
 pytorch3d/implicitron/dataset/types.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/types.py b/pytorch3d/implicitron/dataset/types.py
index 2ddeb3b..08097f0 100644
--- a/pytorch3d/implicitron/dataset/types.py
+++ b/pytorch3d/implicitron/dataset/types.py
@@ -11,6 +11,7 @@ import dataclasses
 import gzip
 import json
 from dataclasses import dataclass, Field, MISSING
+from itertools import islice
 from typing import (
     Any,
     cast,
@@ -214,20 +215,27 @@ def _dataclass_list_from_dict_list(dlist, typeannot):
             for key_list, tp in zip(dlist_T, types)
         ]
         return [cls(*converted_as_tuple) for converted_as_tuple in zip(*res_T)]
-    elif issubclass(cls, (list, tuple)):
-        # For list/tuple, call the function recursively on the lists of corresponding positions
+    elif issubclass(cls, list):
+        # Lists can have different lengths; call the function recursively on the
+        # concatenated items
+        item_t = (get_args(typeannot) or (Any,))[0]
+        all_items_res_iter = iter(
+            _dataclass_list_from_dict_list(
+                [item for obj in dlist for item in obj], item_t
+            )
+        )
+        return [cls(islice(all_items_res_iter, len(obj))) for obj in dlist]
+    elif issubclass(cls, tuple):
+        # For tuple, call the function recursively on the lists of corresponding positions
         types = get_args(typeannot)
-        if len(types) == 1:  # probably List; replicate for all items
+        if len(types) == 1:  # replicate for all items
             types = types * len(dlist[0])
         dlist_T = zip(*dlist)
         res_T = (
             _dataclass_list_from_dict_list(pos_list, tp)
             for pos_list, tp in zip(dlist_T, types)
         )
-        if issubclass(cls, tuple):
-            return list(zip(*res_T))
-        else:
-            return [cls(converted_as_tuple) for converted_as_tuple in zip(*res_T)]
+        return list(zip(*res_T))
     elif issubclass(cls, dict):
         # For the dictionary, call the function recursively on concatenated keys and vertices
         key_t, val_t = get_args(typeannot)
-- 
2.43.0


From 255f3538df0af27c721187ab39c15631541e693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 037/103] fix: custom SQL clauses containing OR disable the
 other filters of SqlIndexDataset

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 84a488b..2c4dc98 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -488,7 +488,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_sequences_sql_clause := self.pick_sequences_sql_clause:
             print("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_sequences_sql_clause))
+            where_conditions.append(_custom_sql_clause(pick_sequences_sql_clause))
 
         def add_where(stmt):
             return stmt.where(*where_conditions) if where_conditions else stmt
@@ -642,7 +642,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            pick_frames_criteria.append(sa.text(pick_frames_sql_clause))
+            pick_frames_criteria.append(_custom_sql_clause(pick_frames_sql_clause))
 
         if pick_frames_criteria:
             index = self._pick_frames_by_criteria(index, pick_frames_criteria)
@@ -710,7 +710,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("  applying custom SQL clause")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_frames_sql_clause))
+            where_conditions.append(_custom_sql_clause(pick_frames_sql_clause))
 
         if where_conditions:
             stmt = stmt.where(*where_conditions)
@@ -882,6 +882,11 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 del cls.__annotations__[attr]
 
 
+def _custom_sql_clause(clause: str) -> sa.TextClause:
+    """The clause is conjoined to other criteria, so its `OR`s need parentheses."""
+    return sa.text(f"({clause})")
+
+
 def _seq_name_to_seed(seq_name) -> int:
     """Generates numbers in [0, 2 ** 28)"""
     return int(hashlib.sha1(seq_name.encode("utf-8")).hexdigest()[:7], 16)
-- 
2.43.0


From 7939b830787bd8a8529531eb45deb3af576a4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 038/103] fix: pick_frames_sql_clause cannot name frames when
 SqlIndexDataset is limited to subsets

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 2c4dc98..0046c8a 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -664,18 +664,14 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             n_rows = index.to_sql(IndexTable.name, connection, if_exists="append")
             assert n_rows == len(index)
             sa_type = self.frame_annotations_type
-            stmt = (
-                sa.select(IndexTable)
-                .select_from(
-                    IndexTable.join(
-                        self.frame_annotations_type,
-                        sa.and_(
-                            sa_type.sequence_name == IndexTable.c.sequence_name,
-                            sa_type.frame_number == IndexTable.c.frame_number,
-                        ),
-                    )
+            # NOTE: the criteria can contain custom SQL with unqualified column names,
+            # so they are put where only the columns of frame annotations are in scope
+            stmt = sa.select(IndexTable).where(
+                sa.exists().where(
+                    sa_type.sequence_name == IndexTable.c.sequence_name,
+                    sa_type.frame_number == IndexTable.c.frame_number,
+                    *criteria,
                 )
-                .where(*criteria)
             )
             return pd.read_sql_query(stmt, connection).set_index(
                 ["sequence_name", "frame_number"]
-- 
2.43.0


From 1199b7754789f2190131a4de7e00848b39ffd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 039/103] fix: SqlIndexDataset pairs timestamps and numbers of
 frames with wrong dataset indices

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 0046c8a..5af195e 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -356,9 +356,11 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             )
 
         index_slice, _ = self._get_frame_no_coalesced_ts_by_row_indices(idxs)
-        # alternatively, we can use `.values.tolist()`, which may be faster
-        # but returns a list of lists
-        return list(index_slice.itertuples())
+        return list(
+            index_slice[["frame_number", "frame_timestamp"]].itertuples(
+                index=False, name=None
+            )
+        )
 
     # override
     def sequence_frames_in_order(
@@ -380,8 +382,6 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 `dataset_idx` is the index within the dataset.
                 `None` timestamps are replaced with 0s.
         """
-        # TODO: implement sort_timestamp_first? (which would matter if the orders
-        # of frame numbers and timestamps are different)
         rows = self._index.index.get_loc(seq_name)
         if isinstance(rows, slice):
             assert rows.stop is not None, "Unexpected result from pandas"
@@ -392,7 +392,9 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         index_slice, idx = self._get_frame_no_coalesced_ts_by_row_indices(
             rows_seq, seq_name, subset_filter
         )
-        index_slice["idx"] = idx
+        index_slice = index_slice.assign(idx=idx).sort_values(
+            ["frame_timestamp", "frame_number"]
+        )
 
         yield from index_slice.itertuples(index=False)
 
@@ -844,7 +846,9 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 "do they belong to more than one sequence?"
             )
 
-        return frame_no_ts, idxs
+        # the rows come in the order of the database, not of `idxs`
+        frame_no_ts = frame_no_ts.set_index("frame_number").loc[frames].reset_index()
+        return frame_no_ts[["frame_timestamp", "frame_number"]], idxs
 
     def _local_path(self, path: str) -> str:
         if self.path_manager is None:
-- 
2.43.0


From d4ebea2df043802625651ed0637cd12ec30148f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 040/103] fix: precompute_seq_to_idx does not order the frames
 of SqlIndexDataset by timestamp

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 26 +++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 5af195e..f3f725c 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -213,10 +213,28 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             logger.warning(
                 "Using precompute_seq_to_idx is deprecated and will be removed in the future."
             )
-            self._index["rowid"] = np.arange(len(self._index))
-            groupby = self._index.groupby("sequence_name", sort=False)["rowid"]
-            self._seq_to_indices = dict(groupby.apply(list))  # pyre-ignore
-            del self._index["rowid"]
+            self._seq_to_indices = self._precompute_seq_to_indices()  # pyre-ignore
+
+    def _precompute_seq_to_indices(self) -> Dict[str, List[int]]:
+        # the same order as in `sequence_frames_in_order`
+        stmt = sa.select(
+            self.frame_annotations_type.sequence_name,
+            self.frame_annotations_type.frame_number,
+            sa.sql.functions.coalesce(
+                self.frame_annotations_type.frame_timestamp, 0
+            ).label("frame_timestamp"),
+        )
+        with self._sql_engine.connect() as connection:
+            timestamps = pd.read_sql_query(stmt, connection)
+        timestamps = timestamps.set_index(["sequence_name", "frame_number"])
+        frames = self._index.index.to_frame(index=False)
+        frames["frame_timestamp"] = timestamps.loc[
+            self._index.index, "frame_timestamp"
+        ].to_numpy()
+        frames["rowid"] = np.arange(len(frames))
+        frames = frames.sort_values(["frame_timestamp", "frame_number"])
+        groupby = frames.groupby("sequence_name", sort=False)["rowid"]
+        return {seq: rowids.tolist() for seq, rowids in groupby}
 
     def __len__(self) -> int:
         return len(self._index)
-- 
2.43.0


From 2e6e8faead019b5ba6a53828a2274458ab685c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 041/103] fix: preloaded metadata of SqlIndexDataset are only
 visible to the thread that loaded them

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index f3f725c..f4e87d1 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -11,6 +11,7 @@ import json
 import logging
 import os
 import urllib
+import uuid
 from dataclasses import dataclass, Field, field
 from typing import (
     Any,
@@ -473,7 +474,14 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
     def _preload_database(
         self, source_engine: sa.engine.base.Engine
     ) -> sa.engine.base.Engine:
-        destination_engine = sa.create_engine("sqlite:///:memory:")
+        # The name makes the database shared by all connections of this engine,
+        # hence by all threads; it lives while the pool keeps a connection to it.
+        destination_engine = sa.create_engine(
+            f"sqlite:///file:preloaded_{uuid.uuid4().hex}"
+            "?mode=memory&cache=shared&uri=true",
+            poolclass=sa.pool.QueuePool,
+            connect_args={"check_same_thread": False},
+        )
         metadata = sa.MetaData()
         metadata.reflect(bind=source_engine)
         metadata.create_all(bind=destination_engine)
-- 
2.43.0


From 3c26d5a52c8dfbca2c7479109e6a0c47a7bf6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 042/103] fix: creating SqlIndexDatasets in several threads
 fails to define the index table

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 29 +++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index f4e87d1..42aaa86 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -10,6 +10,7 @@ import hashlib
 import json
 import logging
 import os
+import threading
 import urllib
 import uuid
 from dataclasses import dataclass, Field, field
@@ -51,6 +52,7 @@ logger = logging.getLogger(__name__)
 
 
 _SET_LISTS_TABLE: str = "set_lists"
+_TEMP_TABLE_LOCK = threading.Lock()
 
 
 @registry.register
@@ -882,19 +884,20 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         return self.path_manager.get_local_path(path)
 
     def _get_temp_index_table_instance(self, table_name: str = "__index"):
-        CachedTable = self.frame_annotations_type.metadata.tables.get(table_name)
-        if CachedTable is not None:  # table definition is not idempotent
-            return CachedTable
-
-        return sa.Table(
-            table_name,
-            self.frame_annotations_type.metadata,
-            sa.Column("sequence_name", sa.String, primary_key=True),
-            sa.Column("frame_number", sa.Integer, primary_key=True),
-            sa.Column("_image_path", sa.String),
-            sa.Column("subset", sa.String),
-            prefixes=["TEMP"],  # NOTE SQLite specific!
-        )
+        with _TEMP_TABLE_LOCK:  # datasets can be created in several threads
+            CachedTable = self.frame_annotations_type.metadata.tables.get(table_name)
+            if CachedTable is not None:  # table definition is not idempotent
+                return CachedTable
+
+            return sa.Table(
+                table_name,
+                self.frame_annotations_type.metadata,
+                sa.Column("sequence_name", sa.String, primary_key=True),
+                sa.Column("frame_number", sa.Integer, primary_key=True),
+                sa.Column("_image_path", sa.String),
+                sa.Column("subset", sa.String),
+                prefixes=["TEMP"],  # NOTE SQLite specific!
+            )
 
     @classmethod
     def pre_expand(cls) -> None:
-- 
2.43.0


From 3c6c8d46eb86e62393053de30852a1cc53741a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 043/103] fix: SqlIndexDataset takes n_frames_per_sequence=0
 for a limit and ignores the SQL clause in is_filtered

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 42aaa86..d42fbe3 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -193,7 +193,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             # still use the concatenated lists, assuming they cover the whole dataset
             index = self._build_index_from_db(sequences)
 
-        if self.n_frames_per_sequence >= 0:
+        if self.n_frames_per_sequence > 0:
             index = self._stratified_sample_index(index)
 
         if len(index) == 0:
@@ -470,6 +470,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             or self.pick_sequences_sql_clause is not None
             or len(self.exclude_sequences) > 0
             or len(self.pick_categories) > 0
+            or self.pick_frames_sql_clause is not None
             or self.n_frames_per_sequence > 0
         )
 
-- 
2.43.0


From 544bc975cec9284bb06710b84cab940656be46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 044/103] fix: frames of sequences without a point cloud or
 viewpoint cannot be read from an SQL index

---
 pytorch3d/implicitron/dataset/frame_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 5ec6214..5a4a34d 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -581,6 +581,9 @@ class GenericFrameDataBuilder(FrameDataBuilderBase[FrameDataSubtype], ABC):
         """
 
         point_cloud = sequence_annotation.point_cloud
+        if point_cloud is not None and point_cloud.path is None:
+            # SQL composites are present even if all their columns are null
+            point_cloud = None
 
         frame_data = self.frame_data_type(
             frame_number=safe_as_tensor(frame_annotation.frame_number, torch.long),
@@ -675,7 +678,8 @@ class GenericFrameDataBuilder(FrameDataBuilderBase[FrameDataSubtype], ABC):
                 self._local_path(pcl_path), max_points=self.max_points
             )
 
-        if frame_annotation.viewpoint is not None:
+        viewpoint = frame_annotation.viewpoint
+        if viewpoint is not None and viewpoint.R is not None:
             frame_data.camera = self._get_pytorch3d_camera(frame_annotation)
 
         if self.box_crop:
-- 
2.43.0


From f22ad3654c1af9fad713d7ad278c66c5d50dc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 045/103] fix: limit_sequences_to keeps arbitrary sequences
 after limit_sequences_per_category_to

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index d42fbe3..b505e69 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -526,6 +526,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
 
         if self.limit_sequences_per_category_to <= 0:
             stmt = add_where(sa.select(self.sequence_annotations_type.sequence_name))
+            order_by = sa.text("ROWID")
         else:
             subquery = sa.select(
                 self.sequence_annotations_type.sequence_name,
@@ -535,6 +536,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                     partition_by=self.sequence_annotations_type.category,
                 )
                 .label("row_number"),
+                sa.literal_column("ROWID").label("sequence_order"),
             )
 
             subquery = add_where(subquery).subquery()
@@ -542,13 +544,14 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 # pyre-ignore[6]: SQLAlchemy column comparison returns ColumnElement, not bool
                 subquery.c.row_number <= self.limit_sequences_per_category_to
             )
+            order_by = subquery.c.sequence_order
 
         if self.limit_sequences_to > 0:
             logger.info(
                 f"Limiting dataset to first {self.limit_sequences_to} sequences"
             )
             # NOTE: ROWID is SQLite-specific
-            stmt = stmt.order_by(sa.text("ROWID")).limit(self.limit_sequences_to)
+            stmt = stmt.order_by(order_by).limit(self.limit_sequences_to)
 
         if (
             not where_conditions
-- 
2.43.0


From b5f0eab096056d84fb4e151c00abf65f04cf02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 046/103] fix: known frames of single scene test sets have no
 foreground probabilities

---
 .../implicitron/dataset/single_sequence_dataset.py  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/single_sequence_dataset.py b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
index 058db29..57ad117 100644
--- a/pytorch3d/implicitron/dataset/single_sequence_dataset.py
+++ b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
@@ -127,12 +127,6 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
         # pyre-ignore[16]
         split = self.i_split[split_idx]
         frame_types = [frame_type] * len(split)
-        fg_probabilities = (
-            None
-            # pyre-ignore[16]
-            if self.fg_probabilities is None
-            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
-        )
         eval_batches = [[i] for i in range(len(split))]
         if split_idx != 0 and self.n_known_frames_for_test is not None:
             # pyrefly: ignore [missing-attribute]
@@ -149,6 +143,13 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
             split = np.concatenate([split, train_split])
             frame_types.extend([DATASET_TYPE_KNOWN] * len(train_split))
 
+        fg_probabilities = (
+            None
+            # pyre-ignore[16]
+            if self.fg_probabilities is None
+            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
+        )
+
         # pyre-ignore[28]
         return SingleSceneDataset(
             object_name=self.object_name,
-- 
2.43.0


From 36240f8667f35a065526927bb5a64a607d1e753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 047/103] fix: farthest point sampling of an empty cloud or of
 no points returns a point

---
 .../sample_farthest_points.cu                  |  2 +-
 .../sample_farthest_points_cpu.cpp             | 13 ++++++++-----
 pytorch3d/ops/sample_farthest_points.py        | 18 +++++++++++-------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
index 5b78862..b2fc513 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
@@ -47,7 +47,7 @@ __global__ void FarthestPointSamplingKernel(
 
   // Write the first selected point to global memory in the first thread
   int64_t selected = start_idxs[batch_idx];
-  if (tid == 0)
+  if (tid == 0 && k_n > 0)
     idxs[batch_idx][0] = selected;
 
   // Iterate to find k_n sampled points
diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
index cd53382..ca02bc3 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
@@ -49,6 +49,14 @@ at::Tensor FarthestPointSamplingCpu(
     std::fill(selected_points_mask.begin(), selected_points_mask.end(), false);
     std::fill(dists.begin(), dists.end(), std::numeric_limits<float>::max());
 
+    // For heterogeneous pointclouds, use the minimum of the
+    // length for that cloud compared to K as the number of
+    // points to sample
+    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
+    if (batch_k <= 0) {
+      continue; // nothing to sample, all indices stay -1
+    }
+
     // Get the starting point index and save it
     int64_t last_idx = start_idxs_a[n];
     sampled_indices_a[n][0] = last_idx;
@@ -56,11 +64,6 @@ at::Tensor FarthestPointSamplingCpu(
     // Set the value of the mask at this point to false
     selected_points_mask[last_idx] = true;
 
-    // For heterogeneous pointclouds, use the minimum of the
-    // length for that cloud compared to K as the number of
-    // points to sample
-    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
-
     // Iteratively select batch_k points per batch
     for (int64_t k = 1; k < batch_k; ++k) {
       // Iterate through all the points
diff --git a/pytorch3d/ops/sample_farthest_points.py b/pytorch3d/ops/sample_farthest_points.py
index ddcb75a..975fd78 100644
--- a/pytorch3d/ops/sample_farthest_points.py
+++ b/pytorch3d/ops/sample_farthest_points.py
@@ -151,6 +151,17 @@ def sample_farthest_points_naive(
             device=device,
         )
 
+        # If the pointcloud has fewer than K points then only iterate over the min
+        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        k_n = min(lengths[n], K[n])
+        if k_n <= 0:
+            # nothing to sample, all indices stay -1
+            all_sampled_indices.append(sample_idx_batch)
+            continue
+
         # Initialize closest distances to inf, shape: (P,)
         # This will be updated at each iteration to track the closest distance of the
         # remaining points to any of the selected points
@@ -167,13 +178,6 @@ def sample_farthest_points_naive(
         selected_idx = randint(0, lengths[n] - 1) if random_start_point else 0
         sample_idx_batch[0] = selected_idx
 
-        # If the pointcloud has fewer than K points then only iterate over the min
-        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        k_n = min(lengths[n], K[n])
-
         # Iteratively select points for a maximum of k_n
         for i in range(1, k_n):
             # Find the distance between the last selected point
-- 
2.43.0


From ad85e511359c26ccf6cea922cbb8f51c2cf0848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 048/103] fix: textures cannot be sampled from a batch with an
 empty mesh

---
 pytorch3d/ops/sample_points_from_meshes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/sample_points_from_meshes.py b/pytorch3d/ops/sample_points_from_meshes.py
index e545cac..3d5c4b0 100644
--- a/pytorch3d/ops/sample_points_from_meshes.py
+++ b/pytorch3d/ops/sample_points_from_meshes.py
@@ -125,8 +125,11 @@ def sample_points_from_meshes(
 
     if return_textures:
         # fragment data are of shape NxHxWxK. Here H=S, W=1 & K=1.
-        pix_to_face = sample_face_idxs.view(len(meshes), num_samples, 1, 1)  # NxSx1x1
-        bary = torch.stack((w0, w1, w2), dim=2).unsqueeze(2).unsqueeze(2)  # NxSx1x1x3
+        # Empty meshes have no faces to sample: their fragments are background.
+        pix_to_face = sample_face_idxs.new_full((num_meshes, num_samples, 1, 1), -1)
+        pix_to_face[meshes.valid] = sample_face_idxs[:, :, None, None]  # NxSx1x1
+        bary = verts.new_zeros((num_meshes, num_samples, 1, 1, 3))
+        bary[meshes.valid] = torch.stack((w0, w1, w2), dim=2)[:, :, None, None]
         # zbuf and dists are not used in `sample_textures` so we initialize them with dummy
         dummy = torch.zeros(
             (len(meshes), num_samples, 1, 1), device=meshes.device, dtype=torch.float32
@@ -136,6 +139,9 @@ def sample_points_from_meshes(
         )
         textures = meshes.sample_textures(fragments)  # NxSx1x1xC
         textures = textures[:, :, 0, 0, :]  # NxSxC
+        textures = torch.where(
+            meshes.valid[:, None, None], textures, torch.zeros_like(textures)
+        )
 
     # return
     # TODO(gkioxari) consider returning a Pointclouds instance [breaking]
-- 
2.43.0


From 1038f2e05a7a71bbb584aafa6e209999f0e4e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 049/103] fix: jitter_extrinsics rotates by angles beyond
 max_angle

The log map of a random rotation has an angle of up to pi, so multiplying it
by max_angle rotates by up to pi * max_angle.
---
 pytorch3d/implicitron/tools/camera_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/camera_utils.py b/pytorch3d/implicitron/tools/camera_utils.py
index 0c76373..b9cfa3b 100644
--- a/pytorch3d/implicitron/tools/camera_utils.py
+++ b/pytorch3d/implicitron/tools/camera_utils.py
@@ -35,7 +35,7 @@ def jitter_extrinsics(
     N = R.shape[0]
     R_jit = pt3d.transforms.random_rotations(1, device=R.device)
     R_jit = pt3d.transforms.so3_exponential_map(
-        pt3d.transforms.so3_log_map(R_jit) * max_angle
+        pt3d.transforms.so3_log_map(R_jit) * (max_angle / math.pi)
     )
     T_jit = torch.randn_like(R_jit[:1, :, 0]) * translation_std
     rigid_transform = pt3d.ops.eyes(dim=4, N=N, device=R.device)
-- 
2.43.0


From 065a6ac05b36a827cc495270cbb5990b81ccba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 050/103] fix: rays cannot be sampled from an image with fewer
 pixels than rays

Rows with enough non-zero values are resampled without replacement, which
fails even for no rows if more samples are requested than there are values.
---
 pytorch3d/renderer/implicit/raysampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/raysampling.py b/pytorch3d/renderer/implicit/raysampling.py
index 222e024..ecdd3dd 100644
--- a/pytorch3d/renderer/implicit/raysampling.py
+++ b/pytorch3d/renderer/implicit/raysampling.py
@@ -592,7 +592,10 @@ def _safe_multinomial(input: torch.Tensor, num_samples: int) -> torch.Tensor:
         # this is probably rare, so we don't mind sampling twice
         res = torch.multinomial(input, num_samples, replacement=True)
         no_repl = (input > 0.0).sum(dim=-1) >= num_samples
-        res[no_repl] = torch.multinomial(input[no_repl], num_samples, replacement=False)
+        if no_repl.any():
+            res[no_repl] = torch.multinomial(
+                input[no_repl], num_samples, replacement=False
+            )
         return res
 
     # in some versions of Pytorch, zero probabilty samples can be drawn without an error
-- 
2.43.0


From c7543f655c647196c03df939e90005817a0c2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 051/103] fix: padded_to_packed fails for tensors without
 features

The number of rows cannot be inferred from a tensor without elements, e.g. the
depths of rays without points in a HeterogeneousRayBundle.
---
 pytorch3d/ops/packed_to_padded.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/ops/packed_to_padded.py b/pytorch3d/ops/packed_to_padded.py
index 8bc18c2..20ea454 100644
--- a/pytorch3d/ops/packed_to_padded.py
+++ b/pytorch3d/ops/packed_to_padded.py
@@ -197,4 +197,4 @@ def padded_to_packed(
     if n_dims == 2:
         return inputs_packed.squeeze(1)
 
-    return inputs_packed.view(-1, *input_shape[2:])
+    return inputs_packed.view(num_inputs, *input_shape[2:])
-- 
2.43.0


From 3eb4edc905380cbe1721da38296e9a9b87e3825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 052/103] fix: the splatter shader fails on images of another
 size than its first

---
 pytorch3d/renderer/mesh/shader.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e751389..5da6e12 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -347,15 +347,21 @@ class SplatterPhongShader(ShaderBase):
             materials=materials,
         )
 
-        if not self.splatter_blender:
-            # Init only once, to avoid re-computing constants.
-            N, H, W, K, _ = colors.shape
-            self.splatter_blender = SplatterBlender((N, H, W, K), colors.device)
+        # The constants are computed again only for another size of the images.
+        N, H, W, K, _ = colors.shape
+        splatter_blender = self.splatter_blender
+        if (
+            splatter_blender is None
+            or splatter_blender.crop_ids_w.shape[:4] != (N, H, W, K)
+            or splatter_blender.crop_ids_w.device != colors.device
+        ):
+            splatter_blender = SplatterBlender((N, H, W, K), colors.device)
+            self.splatter_blender = splatter_blender
 
         blend_params = kwargs.get("blend_params", self.blend_params)
         self.check_blend_params(blend_params)
 
-        images = self.splatter_blender(
+        images = splatter_blender(
             colors,
             pixel_coords_cameras,
             cameras,
-- 
2.43.0


From 5cda5baa9fd41179a46532b76abc5234644280e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 053/103] fix: changing the default extrinsics of a camera in
 place changes all cameras

---
 pytorch3d/renderer/cameras.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 821353f..897b00e 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -93,6 +93,15 @@ class CamerasBase(TensorProperties):
     # When joining objects into a batch, they will have to agree.
     _SHARED_FIELDS: Tuple[str, ...] = ()
 
+    def __init__(self, **kwargs) -> None:
+        # Give each camera its own copy of the default extrinsics, so that
+        # changing them in place does not change the other cameras.
+        if kwargs.get("R") is _R:
+            kwargs["R"] = _R.clone()
+        if kwargs.get("T") is _T:
+            kwargs["T"] = _T.clone()
+        super().__init__(**kwargs)
+
     def get_projection_transform(self, **kwargs):
         """
         Calculate the projective transformation matrix.
-- 
2.43.0


From 9ec6615886a21f5f39aa53a31ea05c6e48fddaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 054/103] fix: setting a broadcast property of one light sets
 it for all lights

---
 pytorch3d/renderer/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index ea3d655..fa91b3d 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -72,6 +72,10 @@ class TensorAccessor(nn.Module):
             msg = "Expected value to have len %r; got %r"
             # pyrefly: ignore [bad-argument-type]
             raise ValueError(msg % (len(self.index), len(value)))
+        if v.shape[0] > 1 and v.stride(0) == 0:
+            # The value was broadcast: its elements share their memory.
+            v = v.clone(memory_format=torch.contiguous_format)
+            setattr(self.class_object, name, v)
         self.class_object.__dict__[name][self.index] = value
 
     # pyrefly: ignore [bad-override]
-- 
2.43.0


From acf1986a2bd6ebdb570258f1862ee45b478ca062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 055/103] fix: two shaders ignore the blend_params of the call

---
 pytorch3d/renderer/mesh/shader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index 5da6e12..c8a74cd 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -202,6 +202,7 @@ class SoftGouraudShader(ShaderBase):
         cameras = super()._get_cameras(**kwargs)
         lights = kwargs.get("lights", self.lights)
         materials = kwargs.get("materials", self.materials)
+        blend_params = kwargs.get("blend_params", self.blend_params)
         pixel_colors = gouraud_shading(
             meshes=meshes,
             fragments=fragments,
@@ -212,7 +213,7 @@ class SoftGouraudShader(ShaderBase):
         znear = kwargs.get("znear", getattr(cameras, "znear", 1.0))
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
         images = softmax_rgb_blend(
-            pixel_colors, fragments, self.blend_params, znear=znear, zfar=zfar
+            pixel_colors, fragments, blend_params, znear=znear, zfar=zfar
         )
         return images
 
@@ -434,8 +435,10 @@ class SoftDepthShader(ShaderBase):
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
 
+        blend_params = kwargs.get("blend_params", self.blend_params)
+
         # Sigmoid probability map based on the distance of the pixel to the face.
-        prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
+        prob_map = torch.sigmoid(-fragments.dists / blend_params.sigma) * mask
 
         # append extra face for zfar
         dists = torch.cat(
-- 
2.43.0


From e085e1dd5c834dd61da3ff9d60b7e4fb437703d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 056/103] fix: PointsRenderer ignores the radius of the call's
 raster_settings

---
 pytorch3d/renderer/points/renderer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/renderer.py b/pytorch3d/renderer/points/renderer.py
index 9be832d..92abd0d 100644
--- a/pytorch3d/renderer/points/renderer.py
+++ b/pytorch3d/renderer/points/renderer.py
@@ -59,7 +59,10 @@ class PointsRenderer(nn.Module):
         # Construct weights based on the distance of a point to the true point.
         # However, this could be done differently: e.g. predicted as opposed
         # to a function of the weights.
-        r = self.rasterizer.raster_settings.radius
+        raster_settings = kwargs.get(
+            "raster_settings", self.rasterizer.raster_settings
+        )
+        r = raster_settings.radius
 
         dists2 = fragments.dists.permute(0, 3, 1, 2)
         weights = 1 - dists2 / (r * r)
-- 
2.43.0


From 30ea6b0ee6cb64eaf867a7e3db9d90f1fc45251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 057/103] fix: changing the default parameters of a fisheye
 camera in place changes all of them

---
 pytorch3d/renderer/fisheyecameras.py | 29 +++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 551e94d..995d32c 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -20,6 +20,21 @@ _tangential_params = torch.tensor(((0.0, 0.0),))
 _thin_prism_params = torch.tensor(((0.0, 0.0, 0.0, 0.0),))
 
 
+def _own(param: torch.Tensor) -> torch.Tensor:
+    """
+    Returns a copy of `param` if it is one of the defaults above, which
+    all cameras would share otherwise.
+    """
+    defaults = (
+        _focal_length,
+        _principal_point,
+        _radial_params,
+        _tangential_params,
+        _thin_prism_params,
+    )
+    return param.clone() if any(param is d for d in defaults) else param
+
+
 class FishEyeCameras(CamerasBase):
     """
     A class which extends Pinhole camera by considering radial, tangential and
@@ -126,13 +141,11 @@ class FishEyeCameras(CamerasBase):
 
         # pyrefly: ignore [bad-assignment]
         self.device = device
-        self.focal = focal_length.to(self.device)
-        self.principal_point = principal_point.to(self.device)
-        self.radial_params = radial_params.to(self.device)
-        self.tangential_params = tangential_params.to(self.device)
-        self.thin_prism_params = thin_prism_params.to(self.device)
-        self.R = R
-        self.T = T
+        self.focal = _own(focal_length).to(self.device)
+        self.principal_point = _own(principal_point).to(self.device)
+        self.radial_params = _own(radial_params).to(self.device)
+        self.tangential_params = _own(tangential_params).to(self.device)
+        self.thin_prism_params = _own(thin_prism_params).to(self.device)
         self.world_coordinates = world_coordinates
         self.use_radial = use_radial
         self.use_tangential = use_tangential
@@ -140,8 +153,6 @@ class FishEyeCameras(CamerasBase):
         self.epsilon = 1e-10
         self.num_distortion_iters = 50
 
-        self.R = self.R.to(self.device)
-        self.T = self.T.to(self.device)
         self.num_radial = radial_params.shape[-1]
 
     def _project_points_batch(
-- 
2.43.0


From 83714564fedf291b96d0f72f6dd422093cfc3fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 058/103] fix: indexing a fisheye camera loses its focal length
 and its thin prism flag

---
 pytorch3d/renderer/fisheyecameras.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 995d32c..f742fa1 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -77,7 +77,7 @@ class FishEyeCameras(CamerasBase):
         "world_coordinates",
         "use_radial",
         "use_tangential",
-        "use_tin_prism",
+        "use_thin_prism",
         "device",
         "image_size",
     )
@@ -155,6 +155,14 @@ class FishEyeCameras(CamerasBase):
 
         self.num_radial = radial_params.shape[-1]
 
+    @property
+    def focal_length(self) -> torch.Tensor:
+        return self.focal
+
+    @focal_length.setter
+    def focal_length(self, value: torch.Tensor) -> None:
+        self.focal = value
+
     def _project_points_batch(
         self,
         focal,
-- 
2.43.0


From 9587c3c4145f2b41e77ec07f95bf0c06d4216c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 059/103] fix: a batch of materials is applied to the layers of
 the image, or fails

---
 pytorch3d/renderer/mesh/shading.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..a127e20 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -39,8 +39,15 @@ def _apply_lighting(
         shininess=materials.shininess,
     )
     ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
+    material_diffuse = materials.diffuse_color
+    material_specular = materials.specular_color
+    if material_diffuse.ndim != light_diffuse.ndim:
+        # Reshape from (N, 3) to have dimensions compatible with
+        # light_diffuse which is of shape (N, H, W, K, 3)
+        material_diffuse = material_diffuse[:, None, None, None, :]
+        material_specular = material_specular[:, None, None, None, :]
+    diffuse_color = material_diffuse * light_diffuse
+    specular_color = material_specular * light_specular
 
     if normals.dim() == 2 and points.dim() == 2:
         # If given packed inputs remove batch dim in output.
-- 
2.43.0


From 4cc6eb8e42f1165e87c7ee1b1811f73bd8e5ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 060/103] fix: list_to_padded fails if all of its tensors are
 empty

---
 pytorch3d/structures/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/structures/utils.py b/pytorch3d/structures/utils.py
index 6c0c4f7..b39eb3b 100644
--- a/pytorch3d/structures/utils.py
+++ b/pytorch3d/structures/utils.py
@@ -62,8 +62,10 @@ def list_to_padded(
         raise ValueError("All items have to have the same number of dimensions!")
 
     if pad_size is None:
+        # (empty tensors do not count, unless there are no others)
+        x_nonempty = [y for y in x if len(y) > 0]
         pad_dims = [
-            max(y.shape[dim] for y in x if len(y) > 0) for dim in range(x[0].ndim)
+            max(y.shape[dim] for y in (x_nonempty or x)) for dim in range(x[0].ndim)
         ]
     else:
         if any(len(pad_size) != y.ndim for y in x):
-- 
2.43.0


From 8f4d07051d4559bb3dcb0a060c5b316930e915c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 061/103] fix: textures of a batch of only empty meshes cannot
 be copied or indexed

---
 pytorch3d/renderer/mesh/textures.py | 17 +++++++++--------
 pytorch3d/structures/meshes.py      | 10 ++++++++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..df25d38 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -534,15 +534,16 @@ class TexturesAtlas(TexturesBase):
     def atlas_list(self) -> List[torch.Tensor]:
         if self._atlas_list is None:
             if self.isempty():
-                self._atlas_padded = [
+                self._atlas_list = [
                     torch.empty((0, 0, 0, 3), dtype=torch.float32, device=self.device)
                 ] * self._N
-            # pyrefly: ignore [bad-assignment]
-            self._atlas_list = _padded_to_list_wrapper(
-                # pyrefly: ignore [bad-argument-type]
-                self._atlas_padded,
-                split_size=self._num_faces_per_mesh,
-            )
+            else:
+                # pyrefly: ignore [bad-assignment]
+                self._atlas_list = _padded_to_list_wrapper(
+                    # pyrefly: ignore [bad-argument-type]
+                    self._atlas_padded,
+                    split_size=self._num_faces_per_mesh,
+                )
         return self._atlas_list
 
     def atlas_packed(self) -> torch.Tensor:
@@ -1815,7 +1816,7 @@ class TexturesVertex(TexturesBase):
         if self._verts_features_padded is None:
             if self.isempty():
                 self._verts_features_padded = torch.zeros(
-                    (self._N, 0, 3, 0), dtype=torch.float32, device=self.device
+                    (self._N, 0, 3), dtype=torch.float32, device=self.device
                 )
             else:
                 self._verts_features_padded = list_to_padded(
diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 19a08ef..570d9ed 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -438,10 +438,16 @@ class Meshes:
                 msg = "Textures do not match the dimensions of Meshes."
                 raise ValueError(msg)
 
+            # The numbers are not kept for a batch of only empty meshes.
+            no_elements = [0] * self._N
             # pyrefly: ignore [missing-attribute]
-            self.textures._num_faces_per_mesh = self._num_faces_per_mesh.tolist()
+            self.textures._num_faces_per_mesh = (
+                self._num_faces_per_mesh.tolist() or no_elements
+            )
             # pyrefly: ignore [missing-attribute]
-            self.textures._num_verts_per_mesh = self._num_verts_per_mesh.tolist()
+            self.textures._num_verts_per_mesh = (
+                self._num_verts_per_mesh.tolist() or no_elements.copy()
+            )
             # pyrefly: ignore [missing-attribute]
             self.textures.valid = self.valid
 
-- 
2.43.0


From d0420913bf9a8c0ec2dbf67ebe4089bc74808f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 062/103] fix: the depth shaders fail for cameras with
 different zfar

---
 pytorch3d/renderer/mesh/shader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index c8a74cd..45ba34b 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -400,11 +400,13 @@ class HardDepthShader(ShaderBase):
         cameras = super()._get_cameras(**kwargs)
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar) and zfar.ndim > 0:
+            # one value for each camera
+            zfar = zfar.reshape(-1, 1, 1, 1)
         mask = fragments.pix_to_face[..., 0:1] < 0
 
-        zbuf = fragments.zbuf[..., 0:1].clone()
-        zbuf[mask] = zfar
-        return zbuf
+        zbuf = fragments.zbuf[..., 0:1]
+        return torch.where(mask, torch.ones_like(zbuf) * zfar, zbuf)
 
 
 class SoftDepthShader(ShaderBase):
@@ -434,6 +436,9 @@ class SoftDepthShader(ShaderBase):
         mask = fragments.pix_to_face >= 0
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar) and zfar.ndim > 0:
+            # one value for each camera
+            zfar = zfar.reshape(-1, 1, 1, 1)
 
         blend_params = kwargs.get("blend_params", self.blend_params)
 
-- 
2.43.0


From 01e8b8a7389cc97b082b88c516afa8c822b86c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 063/103] fix: sampling a texture atlas fails outside of a face

---
 pytorch3d/renderer/mesh/textures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df25d38..0923964 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -602,10 +602,10 @@ class TexturesAtlas(TexturesBase):
         # pyre-fixme[16]: `bool` has no attribute `__getitem__`.
         mask = (pix_to_face < 0)[..., None]
         bary_w01 = torch.where(mask, torch.zeros_like(bary_w01), bary_w01)
-        # If barycentric coordinates are > 1.0 (in the case of
-        # blur_radius > 0.0), wxy might be > R. We need to clamp this
-        # index to R-1 to index into the texture atlas.
-        w_xy = (bary_w01 * R).to(torch.int64).clamp(max=R - 1)  # (N, H, W, K, 2)
+        # If barycentric coordinates are > 1.0 or < 0.0 (in the case of
+        # blur_radius > 0.0), wxy might be > R or < 0. We need to clamp this
+        # index to [0, R-1] to index into the texture atlas.
+        w_xy = (bary_w01 * R).to(torch.int64).clamp(min=0, max=R - 1)  # (N, H, W, K, 2)
 
         below_diag = (
             bary_w01.sum(dim=-1) * R - w_xy.float().sum(dim=-1)
-- 
2.43.0


From 666a5f03c18669e5e59f7ed8488e831431dffc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 064/103] fix: volumes of different sizes are sampled at wrong
 places

---
 pytorch3d/renderer/implicit/renderer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 963f7d0..010a84c 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -375,6 +375,17 @@ class VolumeSampler(torch.nn.Module):
         dim_density = volumes_densities.shape[1]
         volumes_features = self._volumes.features()
 
+        # the local coords span each volume, grid_sample expects the coords
+        # which span the tensor to which the volumes are padded
+        grid_sizes = self._volumes.get_grid_sizes()
+        padded_size = grid_sizes.new_tensor(volumes_densities.shape[2:])
+        if (grid_sizes != padded_size).any():
+            if self._volumes.get_align_corners():
+                grid_sizes, padded_size = grid_sizes - 1, (padded_size - 1).clamp(min=1)
+            scale = (grid_sizes / padded_size).to(rays_points_local)[:, [2, 1, 0]]
+            scale = scale.reshape(-1, *([1] * (rays_points_local.ndim - 2)), 3)
+            rays_points_local = rays_points_local * scale + (scale - 1)
+
         # reshape to a size which grid_sample likes
         rays_points_local_flat = rays_points_local.view(
             rays_points_local.shape[0], -1, 1, 1, 3
-- 
2.43.0


From 0a7d6370e50ebb16e1e462e529f007e97e7b9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 065/103] fix: a batch of fisheye cameras cannot project points
 from world coordinates

---
 pytorch3d/renderer/fisheyecameras.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index f742fa1..bfe8460 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -300,7 +300,9 @@ class FishEyeCameras(CamerasBase):
 
         # project from camera space to image space
         N = len(self.radial_params)
-        if not self.check_input(points, N):
+        # in the view coords of each of the cameras
+        per_camera = self.world_coordinates and N > 1 and points.shape[:-2] == (N,)
+        if not per_camera and not self.check_input(points, N):
             msg = (
                 "Expected points of (P, 3) with batch_size 1 or N, or shape (M, P, 3) \
             with batch_size 1; got points of shape %r and batch_size %r"
@@ -326,7 +328,7 @@ class FishEyeCameras(CamerasBase):
                         self.radial_params[i],
                         self.tangential_params[i],
                         self.thin_prism_params[i],
-                        points,
+                        points[i] if per_camera else points,
                     )
                 )
             outputs = torch.stack(outputs, dim=0)
-- 
2.43.0


From b9fa70b3afb3032cc54d0135ab74f81b7d17b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 066/103] fix: metrics of packed rays select the sampled
 cameras' images twice

---
 pytorch3d/implicitron/models/metrics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 9555b62..d8eb673 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -271,9 +271,6 @@ class ViewMetrics(ViewMetricsBase):
 
             # select images that corespond to sampled cameras if raybundle is packed
             tensor = tensor[ray_bundle.camera_ids]
-            if ray_bundle.is_packed():
-                # select images that corespond to sampled cameras if raybundle is packed
-                tensor = tensor[ray_bundle.camera_ids]
             result = rend_utils.ndc_grid_sample(tensor, xys, mode=mode)
             return padded_to_packed(result, first_idxs, num_inputs, max_size_dim=2)[
                 :, :, None
-- 
2.43.0


From 527899331fc06a08b2e3ea373433a7d3da9ddff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 067/103] fix: the autodecoder norm of a model is never
 computed

---
 pytorch3d/implicitron/models/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index d8eb673..84fb7ee 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -120,8 +120,8 @@ class RegularizationMetrics(RegularizationMetricsBase):
                 autoencoder_norm: Autoencoder weight norm regularization term.
         """
         metrics = {}
-        if getattr(model, "sequence_autodecoder", None) is not None:
-            ad_penalty = model.sequence_autodecoder.calculate_squared_encoding_norm()
+        if getattr(model, "global_encoder", None) is not None:
+            ad_penalty = model.global_encoder.calculate_squared_encoding_norm()
             if ad_penalty is not None:
                 metrics["autodecoder_norm"] = ad_penalty
 
-- 
2.43.0


From d3ab7a50cca234dc18ff3e6be6633f770ee3ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 068/103] fix: OverfitModel cannot use IdrFeatureField

---
 pytorch3d/implicitron/models/overfit_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/overfit_model.py b/pytorch3d/implicitron/models/overfit_model.py
index 1f6af62..3485aae 100644
--- a/pytorch3d/implicitron/models/overfit_model.py
+++ b/pytorch3d/implicitron/models/overfit_model.py
@@ -623,7 +623,7 @@ class OverfitModel(ImplicitronModelBase):
             extra_args["color_dim"] = self.render_features_dimensions
 
         if self.implicit_function_class_type == "IdrFeatureField":
-            extra_args["feature_work_size"] = global_encoder_dim
+            extra_args["encoding_dim"] = global_encoder_dim
             extra_args["feature_vector_size"] = self.render_features_dimensions
 
         if self.implicit_function_class_type == "SRNImplicitFunction":
-- 
2.43.0


From ffeb34cbc1b3e7669ee5d0703426621018917f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 069/103] fix: implicit functions hold on to what they computed
 from unbound arguments

---
 pytorch3d/implicitron/models/renderer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/implicitron/models/renderer/base.py b/pytorch3d/implicitron/models/renderer/base.py
index d82361b..6268c04 100644
--- a/pytorch3d/implicitron/models/renderer/base.py
+++ b/pytorch3d/implicitron/models/renderer/base.py
@@ -211,6 +211,8 @@ class ImplicitFunctionWrapper(torch.nn.Module):
 
     def unbind_args(self):
         self.bound_args = {}
+        # forget anything computed from the arguments which were bound
+        self._fn.on_bind_args()
 
     def forward(self, *args, **kwargs):
         return self._fn(*args, **{**kwargs, **self.bound_args})
-- 
2.43.0


From 7f98af0eb018b755e327b8ce18d738cb9185ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 070/103] fix: the mask of a render without any surface is all
 foreground

---
 pytorch3d/implicitron/models/renderer/sdf_renderer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/sdf_renderer.py b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
index c769b5f..38015f8 100644
--- a/pytorch3d/implicitron/models/renderer/sdf_renderer.py
+++ b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
@@ -199,8 +199,10 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
             )
             * self._bg_color
         )
-        mask_full = features.new_ones(
-            batch_size, *spatial_size, 1, requires_grad=empty_render
+        mask_full = features.new_ones(batch_size, *spatial_size, 1)
+        mask_full.view(-1, 1)[~surface_mask] = torch.sigmoid(
+            # pyre-fixme[6]: For 1st param expected `Tensor` but got `float`.
+            -self.soft_mask_alpha * sdf_output[~surface_mask]
         )
         if not empty_render:
             normals = implicit_function_gradient(differentiable_surface_points)[
@@ -218,10 +220,6 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
                     pooling_fn=None,  # TODO
                 )
             )
-            mask_full.view(-1, 1)[~surface_mask] = torch.sigmoid(
-                # pyre-fixme[6]: For 1st param expected `Tensor` but got `float`.
-                -self.soft_mask_alpha * sdf_output[~surface_mask]
-            )
 
         # scatter points with surface_mask
         points_full = ray_bundle.origins.detach().clone()
-- 
2.43.0


From 18308166ca20fa0cb7a53b2936a6a5467636f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 071/103] fix: grid points of a grid which is not a cube are at
 wrong places

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 26b64f5..270a28a 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1096,10 +1096,10 @@ class VoxelGridModule(Configurable, torch.nn.Module):
                 width * (xresolution - 1) / xresolution if xresolution > 1 else width
             )
             height = (
-                height * (xresolution - 1) / xresolution if xresolution > 1 else height
+                height * (yresolution - 1) / yresolution if yresolution > 1 else height
             )
             depth = (
-                depth * (xresolution - 1) / xresolution if xresolution > 1 else depth
+                depth * (zresolution - 1) / zresolution if zresolution > 1 else depth
             )
         xs = torch.linspace(
             -width / 2, width / 2, xresolution, device=self.get_device()
-- 
2.43.0


From 1794df76ccf4a7fd9e2b41798130055569ca8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 072/103] fix: grid points of a translated voxel grid ignore
 the translation

---
 .../implicitron/models/implicit_function/voxel_grid.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 270a28a..89180f9 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1101,14 +1101,15 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             depth = (
                 depth * (zresolution - 1) / zresolution if zresolution > 1 else depth
             )
+        x, y, z = self.translation
         xs = torch.linspace(
-            -width / 2, width / 2, xresolution, device=self.get_device()
+            x - width / 2, x + width / 2, xresolution, device=self.get_device()
         )
         ys = torch.linspace(
-            -height / 2, height / 2, yresolution, device=self.get_device()
+            y - height / 2, y + height / 2, yresolution, device=self.get_device()
         )
         zs = torch.linspace(
-            -depth / 2, depth / 2, zresolution, device=self.get_device()
+            z - depth / 2, z + depth / 2, zresolution, device=self.get_device()
         )
         xmesh, ymesh, zmesh = torch.meshgrid(xs, ys, zs, indexing="ij")
         return torch.stack((xmesh, ymesh, zmesh), dim=3)
-- 
2.43.0


From a800b07ab54e1aa3741ecbfd1865e3e4e330673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 073/103] fix: the scaffold cannot be calculated in chunks

---
 .../implicit_function/voxel_grid_implicit_function.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index ecd8468..b7fb879 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -536,10 +536,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         chunk_size = (
             self.scaffold_occupancy_chunk_size
             if self.scaffold_occupancy_chunk_size > 0
-            else points.shape[-1]
+            else points.shape[-2]
         )
-        for k in range(0, points.shape[-1], chunk_size):
-            points_in_planes = points[..., k : k + chunk_size]
+        for k in range(0, points.shape[-2], chunk_size):
+            points_in_planes = points[..., k : k + chunk_size, :]
             planes.append(self._get_density(points_in_planes)[..., 0])
 
         density_cube = torch.cat(planes, dim=-1)
-- 
2.43.0


From 6e1f4e8a3f761daf408ef2f2c9c863f64f1d9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 074/103] fix: cropping a voxel grid moves its contents

---
 .../models/implicit_function/voxel_grid.py    | 178 ++++++++++++------
 1 file changed, 122 insertions(+), 56 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 89180f9..61c764b 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -359,6 +359,76 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
         """
         raise NotImplementedError()
 
+    def get_cropped_bounds_world(
+        self,
+        min_point_world: torch.Tensor,
+        max_point_world: torch.Tensor,
+        grid_values: VoxelGridValuesBase,
+        volume_locator: VolumeLocator,
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """
+        Returns the box, in world coordinates, which the values returned by `crop_world`
+        called with the same arguments occupy. As whole voxels are preserved,
+        it can be larger than the box between the given points.
+
+        Args:
+            min_point_world, max_point_world, grid_values, volume_locator: as for `crop_world`
+        Returns:
+            tuple of the minimum and the maximum point of the box, of shape (3,).
+        """
+        min_point_local = volume_locator.world_to_local_coords(min_point_world[None])[0]
+        max_point_local = volume_locator.world_to_local_coords(max_point_world[None])[0]
+        resolution = self._get_values_resolution(grid_values)
+        indices = torch.stack(
+            self._get_crop_indices(min_point_local, max_point_local, resolution)
+        ).to(min_point_local)
+        resolution = min_point_local.new_tensor(resolution)
+        if self.align_corners:
+            # the outermost voxel centers are at the boundary of the box
+            bounds_local = 2 * indices / (resolution - 1).clamp(min=1) - 1
+            # an axis with a single voxel can not be cropped
+            bounds_local[1, resolution == 1] = 1.0
+        else:
+            indices[1] += 1
+            bounds_local = 2 * indices / resolution - 1
+        bounds_world = volume_locator.local_to_world_coords(bounds_local[None])[0]
+        return bounds_world[0], bounds_world[1]
+
+    def _get_values_resolution(
+        self, grid_values: VoxelGridValuesBase
+    ) -> Tuple[int, int, int]:
+        """
+        Returns the resolution of `grid_values` along the x, y and z axis.
+        """
+        raise NotImplementedError()
+
+    def _get_crop_indices(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        resolution: Tuple[int, int, int],
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """
+        Returns the indices, along the x, y and z axis, of the first and of the last voxel
+        needed to calculate all points between min_point_local and max_point_local.
+        """
+        last = min_point_local.new_tensor(resolution) - 1
+        min01 = (torch.clamp(min_point_local, -1, 1) + 1) / 2
+        max01 = (torch.clamp(max_point_local, -1, 1) + 1) / 2
+        if self.align_corners:
+            first_index = torch.floor(min01 * last)
+            last_index = torch.ceil(max01 * last)
+        else:
+            first_index = torch.floor(min01 * (last + 1) - 0.5)
+            last_index = torch.ceil(max01 * (last + 1) - 0.5)
+        if self.align_corners:
+            # at least two voxels are needed to span any space
+            first_index = torch.minimum(first_index, last - 1)
+            last_index = torch.maximum(last_index, first_index + 1)
+        first_index = torch.minimum(first_index.clamp(min=0), last)
+        last_index = torch.minimum(last_index.clamp(min=0), last)
+        return first_index.long(), last_index.long()
+
 
 @dataclass
 class FullResolutionVoxelGridValues(VoxelGridValuesBase):
@@ -408,6 +478,12 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         width, height, depth = self.get_resolution(epoch)
         return {"voxel_grid": (self.n_features, width, height, depth)}
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: FullResolutionVoxelGridValues
+    ) -> Tuple[int, int, int]:
+        return tuple(grid_values.voxel_grid.shape[2:])
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -416,19 +492,10 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         grid_values: FullResolutionVoxelGridValues,
     ) -> FullResolutionVoxelGridValues:
         assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width, height, depth = grid_values.voxel_grid.shape
-        resolution = grid_values.voxel_grid.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        resolution = self._get_values_resolution(grid_values)
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_indices(
+            min_point_local, max_point_local, resolution
+        )
 
         return FullResolutionVoxelGridValues(
             voxel_grid=grid_values.voxel_grid[
@@ -536,6 +603,16 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
             shape_dict["basis_matrix"] = (self.n_components, self.n_features)
         return shape_dict
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: CPFactorizedVoxelGridValues
+    ) -> Tuple[int, int, int]:
+        return (
+            grid_values.vector_components_x.shape[2],
+            grid_values.vector_components_y.shape[2],
+            grid_values.vector_components_z.shape[2],
+        )
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -544,21 +621,10 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
         grid_values: CPFactorizedVoxelGridValues,
     ) -> CPFactorizedVoxelGridValues:
         assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        resolution = self._get_values_resolution(grid_values)
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_indices(
+            min_point_local, max_point_local, resolution
+        )
 
         return CPFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -764,6 +830,16 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
 
         return shape_dict
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: VMFactorizedVoxelGridValues
+    ) -> Tuple[int, int, int]:
+        return (
+            grid_values.vector_components_x.shape[2],
+            grid_values.vector_components_y.shape[2],
+            grid_values.vector_components_z.shape[2],
+        )
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -772,21 +848,10 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
         grid_values: VMFactorizedVoxelGridValues,
     ) -> VMFactorizedVoxelGridValues:
         assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        resolution = self._get_values_resolution(grid_values)
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_indices(
+            min_point_local, max_point_local, resolution
+        )
 
         return VMFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -1032,21 +1097,22 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         new_grid_values = self.voxel_grid.crop_world(
             min_point, max_point, old_grid_values, locator
         )
-        grid_values, _ = self.voxel_grid.change_resolution(
-            new_grid_values, grid_values_with_wanted_resolution=old_grid_values
+        # Whole voxels are preserved, so the cropped grid can span more than
+        # the space between min and max points.
+        min_bound, max_bound = self.voxel_grid.get_cropped_bounds_world(
+            min_point, max_point, old_grid_values, locator
         )
-        # pyre-fixme[16]: `VoxelGridModule` has no attribute `params`.
-        self.params = torch.nn.ParameterDict(
-            {
-                k: torch.nn.Parameter(val)
-                for k, val in vars(grid_values).items()
-                if val is not None
-            }
+        grid_values, _ = self.voxel_grid.change_resolution(
+            new_grid_values,
+            grid_values_with_wanted_resolution=old_grid_values,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
-        # New center of voxel grid is the middle point between max and min points.
-        self.translation = tuple((max_point + min_point) / 2)
-        # new extents of voxel grid are distances between min and max points
-        self.extents = tuple(max_point - min_point)
+        # New center of voxel grid is the middle point of the preserved box.
+        translation = tuple(((max_bound + min_bound) / 2).tolist())
+        # new extents of voxel grid are the extents of the preserved box
+        extents = tuple((max_bound - min_bound).tolist())
+        self.set_voxel_grid_parameters(grid_values)
+        self.translation, self.extents = translation, extents
 
     def _get_volume_locator(self) -> VolumeLocator:
         """
-- 
2.43.0


From 391de6fce57a141b000c76d3e9636a3bd0235b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 075/103] fix: changing the resolution of a voxel grid without
 aligned corners moves its contents

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 61c764b..d5eece8 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1016,7 +1016,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         grid_values = self.voxel_grid.values_type(**self.params)
         grid_values, change = self.voxel_grid.change_resolution(
-            grid_values, epoch=epoch
+            grid_values,
+            epoch=epoch,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
         if change:
             self.set_voxel_grid_parameters(grid_values)
-- 
2.43.0


From d80d273b7a2f9439001188846c6aa8464f4a8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 076/103] fix: a reloaded voxel grid forgets that it has been
 cropped

---
 .../models/implicit_function/voxel_grid.py    | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index d5eece8..983a231 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -934,7 +934,10 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         }
 
         self.set_voxel_grid_parameters(self.voxel_grid.values_type(**params))
+        # The location of the grid when it was created, see `crop_self`.
+        self._initial_location = (self.extents, self.translation)
         self._register_load_state_dict_pre_hook(self._create_parameters_with_new_size)
+        self._register_state_dict_hook(_save_location_hook)
 
     def forward(self, points: torch.Tensor) -> torch.Tensor:
         """
@@ -1062,6 +1065,12 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             nothing
         """
         '''
+        if prefix + "_location" in state_dict:
+            # the saved grid has been cropped
+            self.extents, self.translation = state_dict.pop(prefix + "_location")
+        else:
+            self.extents, self.translation = self._initial_location
+
         new_params = {}
         # pyre-fixme[29]: `Union[(self: Tensor) -> Any, Tensor, Module]` is not a
         #  function.
@@ -1183,6 +1192,25 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         return torch.stack((xmesh, ymesh, zmesh), dim=3)
 
 
+def _save_location_hook(
+    self: VoxelGridModule, state_dict: dict, prefix: str, local_metadata: dict
+) -> None:
+    """
+    Makes sure that `extents` and `translation` are saved in the state dict if they have
+    changed (see `VoxelGridModule.crop_self`), otherwise they come from the config.
+
+    Args:
+        state_dict (dict): a dict containing parameters and
+            persistent buffers.
+        prefix (str): the prefix for parameters and buffers used in this
+            module
+        local_metadata (dict): a dict containing the metadata for this module.
+    """
+    location = (self.extents, self.translation)
+    if location != self._initial_location:
+        state_dict[prefix + "_location"] = location
+
+
 class _RegistratedBufferDict(torch.nn.Module, Mapping):
     """
     Mapping class and a torch.nn.Module that registeres its values
-- 
2.43.0


From bf063bbb4f7c0e6322f2312797bd2e5cf9467acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 077/103] fix: a reloaded VoxelGridImplicitFunction forgets
 that its scaffold has been calculated

---
 .../voxel_grid_implicit_function.py           | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index b7fb879..1c21034 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -10,7 +10,7 @@ import logging
 import math
 import warnings
 from dataclasses import fields
-from typing import Callable, Dict, Optional, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 
 import torch
 from omegaconf import DictConfig
@@ -33,6 +33,17 @@ from pytorch3d.renderer.implicit import HarmonicEmbedding
 logger = logging.getLogger(__name__)
 
 
+def _save_scaffold_ready_hook(
+    self, state_dict: dict, prefix: str, local_metadata: dict
+) -> None:
+    """
+    Notes in the state dict of a `VoxelGridImplicitFunction` that its scaffold
+    has been calculated.
+    """
+    if self._scaffold_ready:
+        state_dict[prefix + "_scaffold_ready"] = True
+
+
 enable_get_default_args(HarmonicEmbedding)
 
 
@@ -211,6 +222,8 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         # pyre-fixme[16]: `VoxelGridImplicitFunction` has no attribute
         #  `_scaffold_ready`.
         self._scaffold_ready = False
+        self._register_load_state_dict_pre_hook(self._load_scaffold_ready_hook)
+        self._register_state_dict_hook(_save_scaffold_ready_hook)
 
     def forward(
         self,
@@ -558,6 +571,24 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
 
         return False
 
+    def _load_scaffold_ready_hook(
+        self,
+        state_dict: dict,
+        prefix: str,
+        local_metadata: dict,
+        strict: bool,
+        missing_keys: List[str],
+        unexpected_keys: List[str],
+        error_msgs: List[str],
+    ) -> None:
+        """
+        Automatically ran before loading the parameters with `load_state_dict()`,
+        finds out whether the scaffold being loaded has been calculated.
+        """
+        # pyre-fixme[16]: `VoxelGridImplicitFunction` has no attribute
+        #  `_scaffold_ready`.
+        self._scaffold_ready = state_dict.pop(prefix + "_scaffold_ready", False)
+
     @classmethod
     def decoder_density_tweak_args(cls, type_, args: DictConfig) -> None:
         args.pop("input_dim", None)
-- 
2.43.0


From a4a6bee371dacc2bb785042e90136a65a809b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 078/103] fix: a state dict which lacks some voxel grid
 parameters breaks the voxel grid

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 983a231..59644fb 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1068,7 +1068,7 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         if prefix + "_location" in state_dict:
             # the saved grid has been cropped
             self.extents, self.translation = state_dict.pop(prefix + "_location")
-        else:
+        elif any(key.startswith(prefix + "params.") for key in state_dict):
             self.extents, self.translation = self._initial_location
 
         new_params = {}
@@ -1078,6 +1078,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             key = prefix + "params." + name
             if key in state_dict:
                 new_params[name] = torch.zeros_like(state_dict[key])
+            else:
+                # load_state_dict deals with the missing parameter
+                new_params[name] = self.params[name]
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         self.set_voxel_grid_parameters(self.voxel_grid.values_type(**new_params))
 
-- 
2.43.0


From f97d5a5fb85c329f6d40a76b816345fadb9033fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 079/103] fix: voxel grids cannot be cropped to an object which
 is one scaffold voxel thin

---
 .../voxel_grid_implicit_function.py                  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 1c21034..3fecb07 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -515,9 +515,15 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         non_zero_idxs = torch.nonzero(occupancy)
         if len(non_zero_idxs) == 0:
             return False
-        min_indices = tuple(torch.min(non_zero_idxs, dim=0)[0])
-        max_indices = tuple(torch.max(non_zero_idxs, dim=0)[0])
-        min_point, max_point = points[min_indices], points[max_indices]
+        min_indices = torch.min(non_zero_idxs, dim=0)[0]
+        max_indices = torch.max(non_zero_idxs, dim=0)[0]
+        # an object which is one voxel thin extends up to the neighboring voxels
+        thin = (min_indices == max_indices).long()
+        last_indices = thin.new_tensor(occupancy.shape) - 1
+        min_indices = (min_indices - thin).clamp(min=0)
+        max_indices = torch.minimum(max_indices + thin, last_indices)
+        min_point = points[tuple(min_indices)]
+        max_point = points[tuple(max_indices)]
 
         logger.info(
             f"Cropping at epoch {epoch} to bounding box "
-- 
2.43.0


From 4d47b8a43290f4dee1c200420eb0ecc491cd3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 080/103] fix: MLPWithInputSkips applies its last activation to
 all layers but the last

---
 .../implicitron/models/implicit_function/decoding_functions.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
index 5073d49..dba395e 100644
--- a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
+++ b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
@@ -192,7 +192,7 @@ class MLPWithInputSkips(Configurable, torch.nn.Module):
                 torch.nn.init.constant_(linear.bias, self.last_layer_bias_init)
             layers.append(
                 torch.nn.Sequential(linear, torch.nn.ReLU(True))
-                if not layeri + 1 < self.n_layers
+                if layeri + 1 < self.n_layers
                 else torch.nn.Sequential(linear, last_activation)
             )
         self.mlp = torch.nn.ModuleList(layers)
-- 
2.43.0


From 5c8a5f2cf48604d47b97462a099364e3e6594938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 081/103] fix: VoxelGridImplicitFunction fails with ray
 directions in camera coordinates

---
 .../models/implicit_function/voxel_grid_implicit_function.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 3fecb07..783407b 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -422,7 +422,8 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = directions @ camera.R
+            directions = directions.reshape(camera.R.shape[0], -1, 3) @ camera.R
+            directions = directions.reshape(-1, 3)
 
         # ########## get voxel grid output ########## #
         # embeds_color.shape = [..., pts_per_ray, n_features]
-- 
2.43.0


From 80d77b75915845f32d6995c9a7e09b068545402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 082/103] fix: voxel grids cannot be evaluated at points which
 are not contiguous

---
 .../implicitron/models/implicit_function/voxel_grid.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 59644fb..dc1ea04 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -464,7 +464,7 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         """
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
         interpolated = interpolate_volume(
             points,
             grid_values.voxel_grid,
@@ -571,7 +571,7 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
 
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from all the vectors and multipy them out
         mult = factor("x") * factor("y") * factor("z")
@@ -706,7 +706,7 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
     ) -> torch.Tensor:
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from matrices and vectors and multiply them
         a = interpolate_plane(
-- 
2.43.0


From 867c49895eb8cc7e711620a6cc66c38d857eade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 083/103] fix: volume coordinates of points which are not
 contiguous cannot be converted

---
 pytorch3d/structures/volumes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..d63e328 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -918,7 +918,7 @@ class VolumeLocator:
         pts_shape = points_3d_world.shape
         return (
             self.get_world_to_local_coords_transform()
-            .transform_points(points_3d_world.view(pts_shape[0], -1, 3))
+            .transform_points(points_3d_world.reshape(pts_shape[0], -1, 3))
             .view(pts_shape)
         )
 
@@ -942,7 +942,7 @@ class VolumeLocator:
         pts_shape = points_3d_local.shape
         return (
             self.get_local_to_world_coords_transform()
-            .transform_points(points_3d_local.view(pts_shape[0], -1, 3))
+            .transform_points(points_3d_local.reshape(pts_shape[0], -1, 3))
             .view(pts_shape)
         )
 
-- 
2.43.0


From e480a59088a64ccb0c2d423e2b2cff4f8003af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 084/103] fix: SignedDistanceFunctionRenderer fails to color a
 batch of images

---
 pytorch3d/implicitron/models/renderer/rgb_net.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/rgb_net.py b/pytorch3d/implicitron/models/renderer/rgb_net.py
index 224cb55..4fcbd36 100644
--- a/pytorch3d/implicitron/models/renderer/rgb_net.py
+++ b/pytorch3d/implicitron/models/renderer/rgb_net.py
@@ -102,9 +102,8 @@ class RayNormalColoringNetwork(torch.nn.Module):
         view_dirs = ray_bundle.directions
         if masks is not None:
             # in case of IDR, other outputs are passed here after applying the mask
-            view_dirs = view_dirs.reshape(view_dirs.shape[0], -1, 3)[
-                :, masks.reshape(-1)
-            ]
+            # (with all images of the batch flattened to one)
+            view_dirs = view_dirs.reshape(1, -1, 3)[:, masks.reshape(-1)]
 
         if self.embedview_fn is not None:
             view_dirs = self.embedview_fn(view_dirs)
-- 
2.43.0


From 5aa1de54f2312ffc7788d985e8fe8444a41eec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 085/103] fix: models cannot be evaluated on frames without
 depth maps or masks

---
 pytorch3d/implicitron/evaluation/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/evaluation/evaluator.py b/pytorch3d/implicitron/evaluation/evaluator.py
index 449e53c..10c52a6 100644
--- a/pytorch3d/implicitron/evaluation/evaluator.py
+++ b/pytorch3d/implicitron/evaluation/evaluator.py
@@ -155,5 +155,6 @@ def _get_eval_frame_data(frame_data: Any) -> Any:
     frame_data_for_eval = copy.deepcopy(frame_data)
     for k in ("image_rgb", "depth_map", "fg_probability", "mask_crop"):
         value = getattr(frame_data_for_eval, k)
-        value[0].zero_()
+        if value is not None:
+            value[0].zero_()
     return frame_data_for_eval
-- 
2.43.0


From fa1c38c73b44112a94b11b7c310faf8f4d65bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 086/103] fix: the SRN hypernet ignores out_features

---
 .../models/implicit_function/scene_representation_networks.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index 8c17077..bd4cb0b 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -267,7 +267,7 @@ class SRNRaymarchHyperNet(Configurable, torch.nn.Module):
             hidden_ch=self.n_hidden_units,
             num_hidden_layers=self.n_layers,
             in_ch=raymarch_input_embedding_dim,
-            out_ch=self.n_hidden_units,
+            out_ch=self.out_features,
         )
 
         self.cached_srn_raymarch_function: Optional[Tuple[SRNRaymarchFunction]] = None
-- 
2.43.0


From a8642f1ed799e1e092c5425a6432d531883b5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 087/103] fix: implicit functions in camera coordinates cannot
 be used in GenericModel

---
 pytorch3d/implicitron/models/generic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/generic_model.py b/pytorch3d/implicitron/models/generic_model.py
index 7f7d0a1..ae3170c 100644
--- a/pytorch3d/implicitron/models/generic_model.py
+++ b/pytorch3d/implicitron/models/generic_model.py
@@ -439,7 +439,7 @@ class GenericModel(ImplicitronModelBase):
         )
 
         # custom_args hold additional arguments to the implicit function.
-        custom_args = {}
+        custom_args = {"camera": target_cameras}
 
         if self.image_feature_extractor is not None:
             # (2) Extract features for the image
-- 
2.43.0


From eb5aaeec8338925d38060c558eb52fe421ae570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 088/103] fix: a model whose rendering failed holds on to its
 inputs and cannot be copied

---
 pytorch3d/implicitron/models/generic_model.py | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/pytorch3d/implicitron/models/generic_model.py b/pytorch3d/implicitron/models/generic_model.py
index ae3170c..38b4a29 100644
--- a/pytorch3d/implicitron/models/generic_model.py
+++ b/pytorch3d/implicitron/models/generic_model.py
@@ -480,29 +480,30 @@ class GenericModel(ImplicitronModelBase):
         for func in self._implicit_functions:
             func.bind_args(**custom_args)
 
-        inputs_to_be_chunked = {}
-        if fg_probability is not None and self.renderer.requires_object_mask():
-            sampled_fb_prob = rend_utils.ndc_grid_sample(
-                fg_probability[:n_targets], ray_bundle.xys, mode="nearest"
-            )
-            inputs_to_be_chunked["object_mask"] = sampled_fb_prob > 0.5
-
-        # (5)-(6) Implicit function evaluation and Rendering
-        rendered = self._render(
-            ray_bundle=ray_bundle,
-            sampling_mode=sampling_mode,
-            evaluation_mode=evaluation_mode,
-            implicit_functions=self._implicit_functions,
-            inputs_to_be_chunked=inputs_to_be_chunked,
-        )
+        try:
+            inputs_to_be_chunked = {}
+            if fg_probability is not None and self.renderer.requires_object_mask():
+                sampled_fb_prob = rend_utils.ndc_grid_sample(
+                    fg_probability[:n_targets], ray_bundle.xys, mode="nearest"
+                )
+                inputs_to_be_chunked["object_mask"] = sampled_fb_prob > 0.5
 
-        # Unbind the custom arguments to prevent pytorch from storing
-        # large buffers of intermediate results due to points in the
-        # bound arguments.
-        # pyre-fixme[29]: `Union[(self: Tensor) -> Any, Tensor, Module]` is not a
-        #  function.
-        for func in self._implicit_functions:
-            func.unbind_args()
+            # (5)-(6) Implicit function evaluation and Rendering
+            rendered = self._render(
+                ray_bundle=ray_bundle,
+                sampling_mode=sampling_mode,
+                evaluation_mode=evaluation_mode,
+                implicit_functions=self._implicit_functions,
+                inputs_to_be_chunked=inputs_to_be_chunked,
+            )
+        finally:
+            # Unbind the custom arguments to prevent pytorch from storing
+            # large buffers of intermediate results due to points in the
+            # bound arguments.
+            # pyre-fixme[29]: `Union[(self: Tensor) -> Any, Tensor, Module]` is not a
+            #  function.
+            for func in self._implicit_functions:
+                func.unbind_args()
 
         # A dict to store losses as well as rendering results.
         preds: Dict[str, Any] = {}
-- 
2.43.0


From a62ccc0e2882590e5906eb413659be993f92dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 089/103] fix: implicit functions in camera coordinates get the
 cameras of other rays

---
 pytorch3d/implicitron/models/generic_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/generic_model.py b/pytorch3d/implicitron/models/generic_model.py
index 38b4a29..7d3245a 100644
--- a/pytorch3d/implicitron/models/generic_model.py
+++ b/pytorch3d/implicitron/models/generic_model.py
@@ -439,7 +439,12 @@ class GenericModel(ImplicitronModelBase):
         )
 
         # custom_args hold additional arguments to the implicit function.
-        custom_args = {"camera": target_cameras}
+        ray_cameras = target_cameras
+        if ray_bundle.is_packed():
+            ray_cameras = target_cameras[
+                ray_bundle.camera_ids.repeat_interleave(ray_bundle.camera_counts)
+            ]
+        custom_args = {"camera": ray_cameras}
 
         if self.image_feature_extractor is not None:
             # (2) Extract features for the image
-- 
2.43.0


From f069cdf6987dc5e16616a6766d6c2a034001b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 090/103] fix: ray directions of a grid of rays get the cameras
 of other rays

---
 .../models/implicit_function/neural_radiance_field.py        | 5 ++++-
 .../implicit_function/scene_representation_networks.py       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
index 7ba577e..ce8c689 100644
--- a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
+++ b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
@@ -226,7 +226,10 @@ class NeuralRadianceFieldBase(ImplicitFunctionBase, torch.nn.Module):
 
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = ray_bundle.directions
+            directions = (
+                directions.reshape(directions.shape[0], -1, 3) @ camera.R
+            ).reshape(directions.shape)
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index bd4cb0b..3b1d347 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -210,7 +210,10 @@ class SRNPixelGenerator(Configurable, torch.nn.Module):
 
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = ray_bundle.directions
+            directions = (
+                directions.reshape(directions.shape[0], -1, 3) @ camera.R
+            ).reshape(directions.shape)
         else:
             directions = ray_bundle.directions
 
-- 
2.43.0


From 23d5ad4cb2778f5432530b75d78c72dc1e6c7047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 091/103] fix: models with two voxel grids held as buffers
 cannot list their parameters

---
 .../implicitron/models/implicit_function/voxel_grid.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index dc1ea04..fa858c9 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1246,5 +1246,9 @@ class _RegistratedBufferDict(torch.nn.Module, Mapping):
         self._keys.add(key)
         self.register_buffer(key, value)
 
+    # As for any other module, there is no other one equal to this one.
+    def __eq__(self, other) -> bool:
+        return self is other
+
     def __hash__(self) -> int:
-        return hash(repr(self))
+        return id(self)
-- 
2.43.0


From f3439437156dea813ecf3ae9a3889ffbdc727b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:03 +0000
Subject: [PATCH 092/103] fix: remove_unused_components removes args of
 components with a longer name

---
 pytorch3d/implicitron/tools/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index 431be1a..82bc74a 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -1200,7 +1200,14 @@ def remove_unused_components(dict_: DictConfig) -> None:
             expect = replaceable + "_" + selected_type + ARGS_SUFFIX
         with open_dict(dict_):
             for key in args_keys:
-                if key.startswith(replaceable + "_") and key != expect:
+                # The name of one replaceable may begin with the name of another,
+                # so the args belong to the longest name which fits.
+                owner = max(
+                    (r for r in replaceables if key.startswith(r + "_")),
+                    key=len,
+                    default=None,
+                )
+                if owner == replaceable and key != expect:
                     del dict_[key]
 
     suffix_length = len(ENABLED_SUFFIX)
-- 
2.43.0


From 00490b08a250037286501e1875f1c0e2ff0ce9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 093/103] fix: classes whose expansion failed or ran in two
 threads are left half expanded

---
 pytorch3d/implicitron/tools/config.py | 36 ++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index 82bc74a..e051240 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -10,6 +10,7 @@ import dataclasses
 import inspect
 import itertools
 import sys
+import threading
 import warnings
 from collections import Counter, defaultdict
 from enum import Enum
@@ -189,6 +190,9 @@ TWEAK_SUFFIX: str = "_tweak_args"
 _DATACLASS_INIT: str = "__dataclass_own_init__"
 PRE_EXPAND_NAME: str = "pre_expand"
 
+# Classes are expanded by one thread at a time.
+_expansion_lock = threading.RLock()
+
 
 class ReplaceableBase:
     """
@@ -206,7 +210,7 @@ class ReplaceableBase:
         instantiated when it hasn't been processed, we expand it here.
         """
         obj = super().__new__(cls)
-        if cls is not ReplaceableBase and not _is_actually_dataclass(cls):
+        if cls is not ReplaceableBase:
             expand_args_fields(cls)
         return obj
 
@@ -226,7 +230,7 @@ class Configurable:
         instantiated when it hasn't been processed, we expand it here.
         """
         obj = super().__new__(cls)
-        if cls is not Configurable and not _is_actually_dataclass(cls):
+        if cls is not Configurable:
             expand_args_fields(cls)
         return obj
 
@@ -864,9 +868,33 @@ def expand_args_fields(
         some_class itself, which has been modified in place. This
         allows this function to be used as a class decorator.
     """
-    if _is_actually_dataclass(some_class):
-        return some_class
+    with _expansion_lock:
+        if _is_actually_dataclass(some_class):
+            return some_class
+
+        members = dict(some_class.__dict__)
+        annotations = dict(members.get("__annotations__", {}))
+        try:
+            return _expand_args_fields(some_class, _do_not_process)
+        except BaseException:
+            # Leave the class as it was, so that it can be expanded another time.
+            for name in set(some_class.__dict__) - set(members):
+                delattr(some_class, name)
+            for name, value in members.items():
+                if some_class.__dict__.get(name, dataclasses.MISSING) is not value:
+                    setattr(some_class, name, value)
+            if "__annotations__" in members:
+                some_class.__annotations__.clear()
+                some_class.__annotations__.update(annotations)
+            raise
 
+
+def _expand_args_fields(
+    some_class: Type[_Y], _do_not_process: Tuple[type, ...]
+) -> Type[_Y]:
+    """
+    Implementation of expand_args_fields for a class which has not been expanded yet.
+    """
     if hasattr(some_class, PRE_EXPAND_NAME):
         getattr(some_class, PRE_EXPAND_NAME)()
 
-- 
2.43.0


From 759874b0bae2a7e2578ccd55183f84e26b95fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 094/103] fix: members of classes are built again for each
 class in between

---
 pytorch3d/implicitron/tools/config.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index e051240..70e2ffb 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -921,8 +921,18 @@ def _expand_args_fields(
             continue
         expand_args_fields(base, _do_not_process=_do_not_process)
         if "_creation_functions" in base.__dict__:
-            # pyrefly: ignore [missing-attribute]
-            creation_functions.extend(base._creation_functions)
+            # Those of the bases of base have been seen already.
+            inherited = {
+                name
+                for ancestor in base.mro()[1:]
+                for name in ancestor.__dict__.get("_creation_functions", ())
+            }
+            creation_functions.extend(
+                name
+                # pyrefly: ignore [missing-attribute]
+                for name in base._creation_functions
+                if name not in inherited
+            )
         if "_known_implementations" in base.__dict__:
             # pyrefly: ignore [missing-attribute]
             known_implementations.update(base._known_implementations)
@@ -954,7 +964,7 @@ def _expand_args_fields(
     for key, count in Counter(creation_functions).items():
         if count > 1:
             warnings.warn(f"Clash with {key} in a base class.")
-    some_class._creation_functions = tuple(creation_functions)
+    some_class._creation_functions = tuple(dict.fromkeys(creation_functions))
     some_class._processed_members = processed_members
     some_class._known_implementations = known_implementations
 
-- 
2.43.0


From 24e87f9ffcb6355bfda22a153ffe9607d4b4d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 095/103] fix: points next to the first voxels of a grid are
 splatted to wrong voxels

---
 .../points_to_volumes/points_to_volumes.cu    | 19 +++++++++++++------
 .../points_to_volumes_cpu.cpp                 | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
index 43d4ed5..b09bce3 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
@@ -24,6 +24,13 @@ using at::RestrictPtrTraits;
 
 // Explanation of the calculation is in the cpp file.
 
+// Split a coordinate into the location below it, which may be -1 for points next
+// to the first one, and the rest in [0, 1).
+static __device__ inline float SplitFloor(float value, float* location) {
+  *location = std::floor(value);
+  return value - *location;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static __device__ void EightDirections(T&& t) {
@@ -99,11 +106,11 @@ __global__ void PointsToVolumesForwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = SplitFloor(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = SplitFloor(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = SplitFloor(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight =
@@ -246,11 +253,11 @@ __global__ void PointsToVolumesBackwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = SplitFloor(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = SplitFloor(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = SplitFloor(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight_x = (up_x ? rx : 1 - rx);
diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 1b9b5a0..617c63e 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -31,6 +31,13 @@
 // This can be thought of as saying "location i" means the whole box from
 // (i-0.5) to (i+0.5)
 
+// Split a coordinate into the location below it, which may be -1 for points next
+// to the first one, and the rest in [0, 1).
+static inline float SplitFloor(float value, float* location) {
+  *location = std::floor(value);
+  return value - *location;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static void EightDirections(T&& t) {
@@ -129,11 +136,11 @@ void PointsToVolumesForwardCpu(
         // rx==0 means weight all on the lower bound, x, rx=1-eps means most
         // weight on x+1. Ditto for ry and yz.
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         // Define how to fractionally increment one of the 8 locations around
         // the point.
@@ -262,11 +269,11 @@ void PointsToVolumesBackwardCpu(
         increment_location(x, y, z, 1);
       } else {
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
-- 
2.43.0


From 75d7253a957c52877c4f72a06983145241535bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 096/103] fix: packed vert_align of pointclouds of different
 sizes contains the padding

---
 pytorch3d/ops/vert_align.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/ops/vert_align.py b/pytorch3d/ops/vert_align.py
index fd1a90d..e6cc538 100644
--- a/pytorch3d/ops/vert_align.py
+++ b/pytorch3d/ops/vert_align.py
@@ -96,12 +96,13 @@ def vert_align(
     if return_packed:
         # flatten the first two dimensions: (N*V, C)
         feats_sampled = feats_sampled.view(-1, feats_sampled.shape[-1])
+        idx = None
         if hasattr(verts, "verts_padded_to_packed_idx"):
-            idx = (
-                verts.verts_padded_to_packed_idx()
-                .view(-1, 1)
-                .expand(-1, feats_sampled.shape[-1])
-            )
+            idx = verts.verts_padded_to_packed_idx()
+        elif hasattr(verts, "padded_to_packed_idx"):
+            idx = verts.padded_to_packed_idx()
+        if idx is not None:
+            idx = idx.view(-1, 1).expand(-1, feats_sampled.shape[-1])
             feats_sampled = feats_sampled.gather(0, idx)  # (sum(V), C)
 
     return feats_sampled
-- 
2.43.0


From 67c94c491afe53e492ff6a39c12365d668c6e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:49 +0000
Subject: [PATCH 097/103] fix: ICP aligns the padding of point clouds when both
 batches have the same sizes

---
 pytorch3d/ops/points_alignment.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 1ae50cd..0b9b9ee 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -114,10 +114,8 @@ def iterative_closest_point(
         )
 
     # pyrefly: ignore [missing-attribute]
-    if ((num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any()) and (
-        num_points_Y != num_points_X
-    ).any():
-        # we have a heterogeneous input (e.g. because X/Y is
+    if (num_points_X < Xt.shape[1]).any():
+        # we have a heterogeneous input (e.g. because X is
         # an instance of Pointclouds)
         mask_X = (
             torch.arange(size_X, dtype=torch.int64, device=Xt.device)[None]
-- 
2.43.0


From 13d9ecfd4bffaba3225f7aadb09bba1ffd0d6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 098/103] fix: gradient of face normals with respect to the z
 coordinate of the second vertex

---
 pytorch3d/csrc/face_areas_normals/face_areas_normals.cu      | 2 +-
 pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
index 58aeb20..487eff4 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
@@ -180,7 +180,7 @@ __global__ void FaceAreasNormalsBackwardKernel(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals[3 * f + 2];
     atomicAdd(grad_verts + 3 * i1 + 2, grad_v1_z);
diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
index 1871ac7..42f162e 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
@@ -178,7 +178,7 @@ at::Tensor FaceAreasNormalsBackwardCpu(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas_a[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals_a[f][2];
     grad_verts[i1][2] += grad_v1_z;
-- 
2.43.0


From 8fb29ffc316dc028e7da074a3c1d81658e3c28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:43 +0000
Subject: [PATCH 099/103] fix: faces of a batch of meshes with several texture
 maps use the maps of other faces

---
 pytorch3d/renderer/mesh/textures.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 0923964..2c7f022 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1282,9 +1282,17 @@ class TexturesUV(TexturesBase):
             pix_to_face = fragments.pix_to_face.clone()
             pix_to_face[mask] = 0
 
+            # pix_to_face indexes the packed faces, so the ids have to be packed too
+            maps_ids_packed = torch.cat(
+                [
+                    ids[:num_faces]
+                    for ids, num_faces in zip(
+                        maps_ids_padded, self._num_faces_per_mesh
+                    )
+                ]
+            )
             pixel_to_map_ids = (
-                maps_ids_padded.flatten()
-                .gather(0, pix_to_face.flatten())
+                maps_ids_packed.gather(0, pix_to_face.flatten())
                 .view(N, H_out, W_out, K, 1)
                 .permute(0, 3, 1, 2, 4)
             )  # N x H_out x W_out x K x 1
-- 
2.43.0


From 9621e6a3d68c41dcaf4cc2715ebc2903c2717c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:43 +0000
Subject: [PATCH 100/103] fix: several texture maps are mixed unless
 align_corners, and a single one of several gives nan

---
 pytorch3d/renderer/mesh/textures.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 2c7f022..413f9fd 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1161,6 +1161,15 @@ class TexturesUV(TexturesBase):
         # pyrefly: ignore [bad-return]
         return self._maps_padded.unbind(0)
 
+    def _maps_ids_to_grid(self, maps_ids: torch.Tensor, M: int) -> torch.Tensor:
+        """
+        The coordinate, between -1 and 1, at which F.grid_sample finds each of
+        M maps which are stacked along an axis.
+        """
+        if self.align_corners:
+            return 2.0 * maps_ids.float() / float(max(M - 1, 1)) - 1.0
+        return (2.0 * maps_ids.float() + 1.0) / float(M) - 1.0
+
     def extend(self, N: int) -> "TexturesUV":
         new_props = self._extend(
             N,
@@ -1298,7 +1307,7 @@ class TexturesUV(TexturesBase):
             )  # N x H_out x W_out x K x 1
 
             # Normalize between -1 and 1 with M (number of maps)
-            pixel_to_map_ids = (2.0 * pixel_to_map_ids.float() / float(M - 1)) - 1
+            pixel_to_map_ids = self._maps_ids_to_grid(pixel_to_map_ids, M)
             pixel_uvs = pixel_uvs.permute(0, 3, 1, 2, 4)
             pixel_uvs = torch.lerp(
                 pixel_uvs.new_tensor([-1.0, 1.0]),
@@ -1360,7 +1369,7 @@ class TexturesUV(TexturesBase):
             texture_maps = texture_maps.permute(0, 4, 1, 2, 3)
             # expand maps_ids to (N, F, 3, 1)
             maps_ids_padded = maps_ids_padded[:, :, None, None].expand(-1, -1, 3, -1)
-            maps_ids_padded = (2.0 * maps_ids_padded.float() / float(M - 1)) - 1.0
+            maps_ids_padded = self._maps_ids_to_grid(maps_ids_padded, M)
 
             # (N, F, 3, 2+1) -> (N, 1, F, 3, 3)
             faces_verts_uvs = torch.cat(
-- 
2.43.0


From dfa5473368f243e86de9f6143d067be45f19ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 101/103] fix: gradients of clipped faces ignore how one of the
 two cuts moves

---
 pytorch3d/renderer/mesh/clip.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 396fae9..ea5e4d7 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -292,7 +292,6 @@ def _find_verts_intersecting_clipping_plane(
     # Solve for the weight w3 such that p1.z * (1-w3) + p2.z * w3 = clip_value,
     # and then interpolate p5 = p1 * (1-w3) + p3 * w3
     w3 = (p1[:, 2] - clip_value) / (p1[:, 2] - p3[:, 2])
-    w3 = w3.detach()
     p5 = p1 * (1 - w3[:, None]) + p3 * w3[:, None]
     if perspective_correct:
         # Again if using a perspective camera, convert back to world coordinates
-- 
2.43.0


From 506b5e6fb723e001e999dc224443fe87febf02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 102/103] fix: culling to the frustum compares coordinates of
 one vertex instead of one coordinate of all

---
 pytorch3d/renderer/mesh/clip.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index ea5e4d7..35cd38b 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -186,10 +186,15 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
         clip_value, axis, op = plane
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
+            coords, bounds = face_verts[:, :, axis], clip_value
+            if frustum.perspective_correct and axis != 2:
+                # The x and y coordinates were divided by z, which may be negative
+                z = face_verts[:, :, 2]
+                coords, bounds = coords * z, bounds * z
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = coords < bounds
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = coords > bounds
 
             # If all verts are clipped then face is outside the frustum
             faces_culled |= verts_clipped.sum(1) == 3
-- 
2.43.0


From b4385c0f4416da496d8b1f7bdc47fad8525dc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 103/103] fix: culling to the frustum removes what is visible
 in images which are not square

---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..2c36385 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -161,11 +161,14 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The shorter side of the image goes from -1 to 1 in NDC
+        x_max = im_size[1] / min(*im_size)
+        y_max = im_size[0] / min(*im_size)
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_max,
+            right=x_max,
+            top=-y_max,
+            bottom=y_max,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -436,11 +439,14 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The shorter side of the image goes from -1 to 1 in NDC
+        x_max = W / min(H, W)
+        y_max = H / min(H, W)
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_max,
+            right=x_max,
+            top=-y_max,
+            bottom=y_max,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0

