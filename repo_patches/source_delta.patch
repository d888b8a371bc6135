From 39cf04344c2123b6e98d7b063972310227b73c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 01/81] fix: worker dies with UnboundLocalError if its first
 claim of a trial fails

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From 68d4ece8953158b737504396393faed0e41107d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 02/81] fix: a trial started by another worker could be handed
 out as pending and evaluated twice

---
 neps/state/neps_state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..f76c7e6 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,12 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Some other worker may have started a trial since it was listed as
+        # pending, hence we need to check the state of what we hand out.
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From bf2fd5efaebe03b5f63df7ce9e96d6f21a64a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 03/81] fix: workers starting at the same time, or on an
 existing empty directory, failed on the missing optimizer info

---
 neps/state/filebased.py | 52 ++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..b0d7070 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -571,9 +571,8 @@ def create_or_load_filebased_neps_state(
     !!! warning
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
+        the one that is passed. If two processes try to create a NePSState at
+        the same time, both with different optimizer infos, one will fail
         to create the NePSState. This is a limitation of the current design.
 
         In principal, we could allow multiple optimizers to be run and share
@@ -590,7 +589,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -606,35 +604,31 @@ def create_or_load_filebased_neps_state(
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
     # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    # NOTE: We go through the locked resource, as another worker may be starting up at
+    # the same time, having created the directories but not yet written the info.
+    shared_optimizer_info: Synced[OptimizerInfo, Path] = Synced.new_or_load(
+        data=optimizer_info,  # type: ignore
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = shared_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=shared_optimizer_info,
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From d9c877465cd22350efb7500e6e07093ffd9aa692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 04/81] fix: a trial just being created by another worker made
 listing trials fail

---
 neps/state/filebased.py | 12 +++++++++---
 neps/state/protocols.py |  3 ++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index b0d7070..8118baf 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -92,11 +92,17 @@ class TrialRepoInDirectory(TrialRepo[Path]):
 
     @override
     def all_trial_ids(self) -> set[str]:
-        """List all the trial ids in this trial Repo."""
+        """List all the trial ids in this trial Repo.
+
+        !!! note
+            A trial which is just being created by another worker has no version yet
+            and is not considered to be in the repo.
+        """
         return {
             config_path.name.replace("config_", "")
             for config_path in self.directory.iterdir()
-            if config_path.name.startswith("config_") and config_path.is_dir()
+            if config_path.name.startswith("config_")
+            and (config_path / ".version").exists()
         }
 
     @override
@@ -168,7 +174,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 repository.
         """
         config_path = self.directory.absolute().resolve() / f"config_{trial.metadata.id}"
-        if config_path.exists():
+        if (config_path / ".version").exists():
             raise TrialRepo.TrialAlreadyExistsError(
                 f"Trial '{trial.metadata.id}' already exists as '{config_path}'."
             )
diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index 51bff7d..7c0a321 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -198,8 +198,9 @@ class VersionedResource(Generic[T, K]):
                 f" with version '{current_version}'"
             )
 
-        version = versioner.bump()
+        # NOTE: The version is what makes the resource exist, so it has to come last.
         reader_writer.write(data, location)
+        version = versioner.bump()
         return VersionedResource(
             _current=data,
             _location=location,
-- 
2.43.0


From a69c1c914a133ec08b5ef4432815ed039ac4f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 05/81] fix: a worker killed while writing left torn or
 half-updated files that broke every later worker

---
 neps/state/filebased.py | 27 ++++++++++++++++++---------
 neps/utils/files.py     | 23 ++++++++++++++++++++---
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 8118baf..9df9263 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,7 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, serialize
+from neps.utils.files import atomic_write, deserialize, serialize
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -79,7 +79,8 @@ class FileVersioner(Versioner):
     @override
     def bump(self) -> str:
         sha = make_sha()
-        self.version_file.write_text(sha)
+        with atomic_write(self.version_file) as tmp_file:
+            tmp_file.write_text(sha)
         return sha
 
 
@@ -252,16 +253,20 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        state_path.write_text(trial.state.value, encoding="utf-8")
 
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
-            previous_trial_path.write_text(trial.metadata.previous_trial_id)
+            with atomic_write(previous_trial_path) as tmp_path:
+                tmp_path.write_text(trial.metadata.previous_trial_id)
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
             serialize(asdict(trial.report), report_path)
 
+        # NOTE: Comes last, such that a trial is never finished without its report
+        with atomic_write(state_path) as tmp_path:
+            tmp_path.write_text(trial.state.value, encoding="utf-8")
+
 
 @dataclass
 class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
@@ -335,7 +340,8 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
 
         py_rng_version, py_rng_state, py_guass_next = snapshot.py_rng
 
-        np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(py_rng_path)
+        with atomic_write(py_rng_path) as tmp_path:
+            np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(tmp_path)
 
         seed_info = {
             "np_rng_kind": snapshot.np_rng[0],
@@ -347,17 +353,20 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
         }
         serialize(seed_info, seedinfo_path)
         np_rng_state = snapshot.np_rng[1]
-        np_rng_state.tofile(np_rng_path)
+        with atomic_write(np_rng_path) as tmp_path:
+            np_rng_state.tofile(tmp_path)
 
         if snapshot.torch_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_rng, torch_rng_path)
+            with atomic_write(torch_rng_path) as tmp_path:
+                torch.save(snapshot.torch_rng, tmp_path)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_cuda_rng, torch_cuda_rng_path)
+            with atomic_write(torch_cuda_rng_path) as tmp_path:
+                torch.save(snapshot.torch_cuda_rng, tmp_path)
 
 
 @dataclass
@@ -425,7 +434,7 @@ class ReaderWriterErrDump(ReaderWriter[ErrDump, Path]):
     @override
     def write(self, err_dump: ErrDump, directory: Path) -> None:
         errors_path = directory / f"{self.name}-errors.jsonl"
-        with errors_path.open("w") as f:
+        with atomic_write(errors_path) as tmp_path, tmp_path.open("w") as f:
             lines = [json.dumps(asdict(trial_err)) for trial_err in err_dump.errs]
             f.write("\n".join(lines))
 
diff --git a/neps/utils/files.py b/neps/utils/files.py
index 95eb4ee..4549fb9 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -3,7 +3,9 @@
 from __future__ import annotations
 
 import dataclasses
-from collections.abc import Iterable, Mapping
+import os
+from collections.abc import Iterable, Iterator, Mapping
+from contextlib import contextmanager
 from enum import Enum
 from pathlib import Path
 from typing import Any
@@ -41,11 +43,26 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     return data
 
 
+@contextmanager
+def atomic_write(path: Path | str) -> Iterator[Path]:
+    """Provides a temporary path to write to which replaces `path` at the end.
+
+    A process that is killed while writing leaves the previous content of `path` intact.
+    """
+    path = Path(path)
+    tmp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        yield tmp_path
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+    tmp_path.replace(path)
+
+
 def serialize(data: Any, path: Path | str, *, sort_keys: bool = True) -> None:
     """Serialize data to a yaml file."""
     data = serializable_format(data)
-    path = Path(path)
-    with path.open("w") as file_stream:
+    with atomic_write(path) as tmp_path, tmp_path.open("w") as file_stream:
         try:
             return yaml.safe_dump(data, file_stream, sort_keys=sort_keys)
         except yaml.representer.RepresenterError as e:
-- 
2.43.0


From b0603c3901d4fec63257507713d824247366bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:06 +0000
Subject: [PATCH 06/81] fix: an ignored error made the successive-halving
 searchers fail on the next sample

The performance of an errored configuration was recorded as the string
'error', which the promotion policies then tried to sort. Use the loss to
use on errors if there is one and rank it last otherwise.
---
 neps/optimizers/multi_fidelity/successive_halving.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..43c8ff5 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -226,6 +226,14 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            if perf == "error":
+                # An ignored error: unless there is a loss to use instead, it ranks
+                # behind every successful evaluation (NaN would mean still pending).
+                perf = (
+                    self.loss_value_on_error
+                    if self.loss_value_on_error is not None
+                    else np.inf
+                )
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
-- 
2.43.0


From 76fb6a201c0f333865b88a28f638e27b488a4f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 07/81] fix: Bayesian optimization failed if nothing of its
 initial design was evaluated yet

With several workers (or only failed evaluations) the initial design can be
used up before any loss is known; there is nothing to fit a GP on then, so
sample from the prior, or uniformly, instead.
---
 neps/optimizers/bayesian_optimization/optimizer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3531217..ad4eee1 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -16,7 +16,7 @@ from neps.optimizers.bayesian_optimization.models.gp import (
     make_default_single_obj_gp,
 )
 from neps.optimizers.initial_design import make_initial_design
-from neps.sampling import Prior
+from neps.sampling import Prior, Sampler
 from neps.search_spaces.encoding import ConfigEncoder
 
 if TYPE_CHECKING:
@@ -165,6 +165,17 @@ class BayesianOptimization(BaseOptimizer):
         if n_sampled < len(self.init_design):
             return SampledConfig(id=config_id, config=self.init_design[n_sampled])
 
+        # The initial design may be handed out while none of it is evaluated yet (or all
+        # of it failed), there is nothing to fit a GP on in that case.
+        if not any(
+            trial.report is not None and trial.report.loss is not None
+            for trial in trials.values()
+        ):
+            sampler = self.prior or Sampler.uniform(ndim=self.encoder.ncols)
+            sample = sampler.sample(1, to=self.encoder.domains, device=self.device)
+            config = self.encoder.decode(sample)[0]
+            return SampledConfig(id=config_id, config=config)
+
         # Otherwise, we encode trials and setup to fit and acquire from a GP
         data, encoder = encode_trials_for_gp(
             trials, space, device=self.device, encoder=self.encoder
-- 
2.43.0


From 2ff48dccd0641ffdac44911b8b6cbf7ca2fc4ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 08/81] fix: Hyperband failed to sample if all configs of the
 current bracket were pending

---
 neps/optimizers/multi_fidelity/successive_halving.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 43c8ff5..c6f69ef 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -306,7 +306,10 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for _rung in observed_configs.rung.unique():
             idxs = observed_configs.rung == _rung
             self.rung_members[_rung] = observed_configs.index[idxs].values
-            self.rung_members_performance[_rung] = observed_configs.perf[idxs].values
+            # NOTE: With only pending configs the column has dtype object
+            self.rung_members_performance[_rung] = observed_configs.perf[
+                idxs
+            ].values.astype(float)
 
     def _handle_promotions(self) -> None:
         self.promotion_policy.set_state(
-- 
2.43.0


From f6d3f12aa9554d42b4ab7a1ac0dfbb6e139a6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:31 +0000
Subject: [PATCH 09/81] fix: an invalid result or interrupt left the trial set
 as in progress for later runs of the process

---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..8ceed41 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From c2fc2d331bc8dd896a764b3c072a4ca5dfe025c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 10/81] fix: results with 0-d arrays or tensors or an array as
 learning curve failed, info_dict of the user was modified

---
 neps/state/_eval.py | 10 ++++++++--
 neps/utils/files.py |  8 +++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index f3153a6..9947e1f 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -49,14 +49,20 @@ def parse_user_result(
         if extracted_learning_curve is _notset:
             # HACK: Backwards compat, check if it's in the "info_dict" key
             if "info_dict" in user_result:
-                extracted_learning_curve = user_result["info_dict"].pop(
+                # Do not modify what belongs to the user
+                info_dict = dict(user_result["info_dict"])
+                extracted_learning_curve = info_dict.pop(
                     "learning_curve",
                     default_learning_curve,
                 )
+                user_result["info_dict"] = info_dict
             else:
                 extracted_learning_curve = default_learning_curve
 
-        if extracted_learning_curve == "loss":
+        if (
+            isinstance(extracted_learning_curve, str)
+            and extracted_learning_curve == "loss"
+        ):
             extracted_learning_curve = [extracted_loss]
 
         extra = user_result
diff --git a/neps/utils/files.py b/neps/utils/files.py
index 4549fb9..0a475e6 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -30,9 +30,8 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     if isinstance(data, Mapping):
         return {key: serializable_format(val) for key, val in data.items()}
 
-    if not isinstance(data, str) and isinstance(data, Iterable):
-        return [serializable_format(val) for val in data]
-
+    # NOTE: Before the check for iterables as arrays and tensors of dimension 0 claim to be
+    # iterable but are not.
     if type(data).__module__ in ["numpy", "torch"]:
         data = data.tolist()  # type: ignore
         if type(data).__module__ == "numpy":
@@ -40,6 +39,9 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
 
         return serializable_format(data)
 
+    if not isinstance(data, str) and isinstance(data, Iterable):
+        return [serializable_format(val) for val in data]
+
     return data
 
 
-- 
2.43.0


From cc91dc1d303974c3d136c2e5d49151ed14c8fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:18 +0000
Subject: [PATCH 11/81] fix: successive halving lost a rung or failed on
 fidelities like 0.1 to 0.9 due to rounding

floor(log(243) / log(3)) is 4, and 0.9 / 3 / 3 is below 0.1.
---
 .../multi_fidelity/successive_halving.py      | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c6f69ef..437f413 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -123,9 +123,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
 
         # check to ensure no rung ID is negative
         # equivalent to s_max in https://arxiv.org/pdf/1603.06560.pdf
-        self.stopping_rate_limit = np.floor(
-            np.log(self.max_budget / self.min_budget) / np.log(self.eta)
-        ).astype(int)
+        self.stopping_rate_limit = self._n_reductions(self.min_budget)
         assert self.early_stopping_rate <= self.stopping_rate_limit
 
         # maps rungs to a fidelity value for an SH bracket with `early_stopping_rate`
@@ -172,16 +170,17 @@ class SuccessiveHalvingBase(BaseOptimizer):
             rung_trace.extend([rung] * config_map[rung])
         return rung_trace
 
+    def _n_reductions(self, min_budget: int | float) -> int:
+        """How often the maximum budget can be reduced by eta down to a minimum budget."""
+        n = np.log(self.max_budget / min_budget) / np.log(self.eta)
+        # NOTE: The logarithms are inexact, e.g. log(243) / log(3) < 5
+        return int(np.floor(n + 1e-9))
+
     def _get_rung_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to a fidelity value based on fidelity bounds, eta, s."""
         assert s <= self.stopping_rate_limit
         new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self._n_reductions(new_min_budget) + 1
         _max_budget = self.max_budget
         rung_map = {}
         for i in reversed(range(nrungs)):
@@ -190,19 +189,15 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 if isinstance(self.pipeline_space.fidelity, IntegerParameter)
                 else _max_budget
             )
-            _max_budget /= self.eta
+            # NOTE: The division is inexact, e.g. 0.9 / 3 / 3 < 0.1
+            _max_budget = max(_max_budget / self.eta, self.min_budget)
         return rung_map
 
     def _get_config_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to the number of configs for each fidelity."""
         assert s <= self.stopping_rate_limit
         new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self._n_reductions(new_min_budget) + 1
         s_max = self.stopping_rate_limit + 1
         _s = self.stopping_rate_limit - s
         # L2 from Alg 1 in https://arxiv.org/pdf/1603.06560.pdf
-- 
2.43.0


From 6781c808aed237f6be2996f699dd2d6d3a62edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:27 +0000
Subject: [PATCH 12/81] fix: pending and in-progress trials were never counted
 or listed in the summary

---
 neps/status/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..e4e0175 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.state == Trial.State.EVALUATING
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
-- 
2.43.0


From be0edd311c77f037d0fc8a7f1ae3c42015747c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:18 +0000
Subject: [PATCH 13/81] fix: the summary csv failed without a successful trial
 and went stale while trials were pending

---
 neps/status/status.py | 90 ++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 66 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index e4e0175..1b106dc 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -282,69 +282,25 @@ def _get_dataframes_from_summary(
 def _save_data_to_csv(
     config_data_file_path: Path,
     run_data_file_path: Path,
-    locker: Locker,
     config_data_df: pd.DataFrame,
     run_data_df: pd.DataFrame,
 ) -> None:
-    """Save data as a CSV while acquiring a lock for data integrity.
-
-    This function saves data to CSV files while acquiring a lock to prevent concurrent
-    writes. If the lock is acquired, it writes the data to the CSV files and releases the
-    lock.
+    """Save data as a CSV, the caller has to hold the lock of the CSV files.
 
     Args:
         config_data_file_path: The path to the CSV file for configuration data.
         run_data_file_path: The path to the CSV file for additional run data.
-        locker: An object for acquiring and releasing a lock to ensure data integrity.
         config_data_df: The DataFrame containing configuration data.
         run_data_df: The DataFrame containing additional run data.
     """
-    with locker(poll=2):
-        try:
-            pending_configs = run_data_df.loc["num_pending_configs", "value"]
-            pending_configs_with_worker = run_data_df.loc[
-                "num_pending_configs_with_worker",
-                "value",
-            ]
-            # Represents the last worker
-            if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-
-            if run_data_file_path.exists():
-                prev_run_data_df = pd.read_csv(run_data_file_path)
-                prev_run_data_df = prev_run_data_df.set_index("description")
-
-                num_evaluated_configs_csv = prev_run_data_df.loc[
-                    "num_evaluated_configs",
-                    "value",
-                ]
-                num_evaluated_configs_run = run_data_df.loc[
-                    run_data_df.index == "num_evaluated_configs",
-                    "value",
-                ]
-                # check if the current worker has more evaluated configs than the previous
-                if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
-                    config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                    run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-            # Represents the first worker to be evaluated
-            else:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-        except Exception as e:
-            raise RuntimeError(f"Error during data saving: {e}") from e
+    try:
+        # NOTE: There is no loss if nothing was evaluated or if everything crashed
+        if "result.loss" in config_data_df.columns:
+            config_data_df = config_data_df.sort_values(by="result.loss", ascending=True)
+        config_data_df.to_csv(config_data_file_path, index=False, mode="w")
+        run_data_df.to_csv(run_data_file_path, index=True, mode="w")
+    except Exception as e:
+        raise RuntimeError(f"Error during data saving: {e}") from e
 
 
 def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
@@ -360,18 +316,20 @@ def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
     csv_config_data = Path(csv_config_data).absolute().resolve()
     csv_rundata = Path(csv_rundata).absolute().resolve()
 
-    df_config_data, df_run_data = _get_dataframes_from_summary(
-        root_directory,
-        include_metadatas=True,
-        include_results=True,
-        include_configs=True,
-    )
+    # NOTE: The summary has to be made while holding the lock, otherwise a worker could
+    # overwrite the files of another one with an older summary.
+    with csv_locker(poll=2, timeout=120):
+        df_config_data, df_run_data = _get_dataframes_from_summary(
+            root_directory,
+            include_metadatas=True,
+            include_results=True,
+            include_configs=True,
+        )
 
-    _save_data_to_csv(
-        csv_config_data,
-        csv_rundata,
-        csv_locker,
-        df_config_data,
-        df_run_data,
-    )
+        _save_data_to_csv(
+            csv_config_data,
+            csv_rundata,
+            df_config_data,
+            df_run_data,
+        )
     return csv_config_data, csv_rundata
-- 
2.43.0


From 21615ba8f004044431834acdd8c9541621388c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:34 +0000
Subject: [PATCH 14/81] fix: showing best losses, best configs or all configs
 in the status failed as nothing writes the files read

---
 neps/status/status.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 1b106dc..7c3cf11 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -137,25 +137,42 @@ def status(
         print(f"Best config id: {summary['best_config_id']}")
         print(f"Best config: {summary['best_config']}")
 
+        # In the order in which they finished
+        results = sorted(
+            summary["previous_results"].values(),
+            key=lambda result: result.metadata["time_end"],
+        )
+        incumbents: list[_ConfigResultForStats] = []
+        for result in results:
+            best_loss = incumbents[-1].loss if incumbents else float("inf")
+            if isinstance(result.loss, float) and result.loss < best_loss:
+                incumbents.append(result)
+
+        def _print_with_config(result: _ConfigResultForStats) -> None:
+            print(f"Loss: {result.loss}")
+            print(f"Config ID: {result.id}")
+            print(f"Config: {result.config}")
+            print(79 * "-")
+
         if best_losses:
             print()
             print("Best loss across evaluations:")
-            best_loss_trajectory = root_directory / "best_loss_trajectory.txt"
-            print(best_loss_trajectory.read_text(encoding="utf-8"))
+            for result in incumbents:
+                print(result.loss)
 
         if best_configs:
             print()
             print("Best configs and their losses across evaluations:")
             print(79 * "-")
-            best_loss_config = root_directory / "best_loss_with_config_trajectory.txt"
-            print(best_loss_config.read_text(encoding="utf-8"))
+            for result in incumbents:
+                _print_with_config(result)
 
         if all_configs:
             print()
             print("All evaluated configs and their losses:")
             print(79 * "-")
-            all_loss_config = root_directory / "all_losses_and_configs.txt"
-            print(all_loss_config.read_text(encoding="utf-8"))
+            for result in results:
+                _print_with_config(result)
 
     return summary["previous_results"], summary["pending_configs"]
 
-- 
2.43.0


From 775ec0c4f97659ebf77b780900f4e7c122f39506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:33 +0000
Subject: [PATCH 15/81] fix: the initial directory of a trial could be one of
 an earlier run in the same process

---
 neps/utils/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neps/utils/common.py b/neps/utils/common.py
index 1e73506..3d0b601 100644
--- a/neps/utils/common.py
+++ b/neps/utils/common.py
@@ -164,8 +164,9 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     else:
         trial = get_in_progress_trial()
 
-    if trial.metadata.id in _INTIAL_DIRECTORY_CACHE:
-        return _INTIAL_DIRECTORY_CACHE[trial.metadata.id]
+    # NOTE: Trials of different runs may have the same id
+    if trial.metadata.location in _INTIAL_DIRECTORY_CACHE:
+        return _INTIAL_DIRECTORY_CACHE[trial.metadata.location]
 
     # Recursively find the initial directory
     while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
@@ -177,7 +178,7 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     assert isinstance(initial_dir, str)
     path = Path(initial_dir)
 
-    _INTIAL_DIRECTORY_CACHE[trial.metadata.id] = path
+    _INTIAL_DIRECTORY_CACHE[trial.metadata.location] = path
     return path
 
 
-- 
2.43.0


From 783b68ae8ad18437ca51f3a25fd165cfdee3041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 16/81] fix: values converted back from normalized form could
 lie outside of the bounds

---
 neps/search_spaces/hyperparameters/float.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/float.py b/neps/search_spaces/hyperparameters/float.py
index 8badc76..cfc2bae 100644
--- a/neps/search_spaces/hyperparameters/float.py
+++ b/neps/search_spaces/hyperparameters/float.py
@@ -171,7 +171,8 @@ class FloatParameter(NumericalParameter[float]):
 
         normalized_value = normalized_value * (high - low) + low
         _value = np.exp(normalized_value) if self.log else normalized_value
-        return float(_value)
+        # NOTE: Rounding might end up slightly outside of the bounds
+        return float(min(self.upper, max(self.lower, _value)))
 
     @override
     def _get_non_unique_neighbors(
-- 
2.43.0


From a81dc66aa747d319eb8e27e93c0a4c20bbf6e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 17/81] fix: simple mutation of numerical parameters discarded
 the sampled value and always failed

---
 neps/search_spaces/hyperparameters/numerical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/numerical.py b/neps/search_spaces/hyperparameters/numerical.py
index 62d5cd6..afc58cd 100644
--- a/neps/search_spaces/hyperparameters/numerical.py
+++ b/neps/search_spaces/hyperparameters/numerical.py
@@ -196,8 +196,7 @@ class NumericalParameter(ParameterWithPrior[T, T], MutatableParameter):
             parent = self
 
         if mutation_strategy == "simple":
-            child = self.clone()
-            child.sample()
+            child = self.sample()
         elif mutation_strategy == "local_search" and "std" in kwargs:
             child = self._get_non_unique_neighbors(std=kwargs["std"], num_neighbours=1)[0]
         elif mutation_strategy == "local_search":
-- 
2.43.0


From d1d335180484a4b6ce475150baed48befbf269ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:54 +0000
Subject: [PATCH 18/81] fix: casting to a domain could give values slightly
 outside of its bounds

---
 neps/search_spaces/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d7260c0..c17c542 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -242,6 +242,10 @@ class Domain(Generic[V]):
 
         x = (x - lower) / (upper - lower)
 
+        # NOTE: `torch.log` and `math.log` might differ in the last digit
+        if self.log_bounds is not None:
+            x = x.clip(0, 1)
+
         if q is not None:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
@@ -279,7 +283,8 @@ class Domain(Generic[V]):
         if self.round:
             x = torch.round(x)
 
-        return x.type(dtype)
+        # NOTE: Rounding might end up slightly outside of the bounds
+        return x.clip(self.lower, self.upper).type(dtype)
 
     def cast(self, x: Tensor, frm: Domain, *, dtype: torch.dtype | None = None) -> Tensor:
         """Cast a tensor of values frm the domain `frm` to this domain.
-- 
2.43.0


From b93761f34e070678b2caa0044c15d4e7c42adec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:54 +0000
Subject: [PATCH 19/81] fix: log-scaled integers were merged or unreachable
 when encoded and decoded

---
 neps/search_spaces/domain.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index c17c542..70e36bf 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -137,6 +137,12 @@ class Domain(Generic[V]):
 
         object.__setattr__(self, "bounds", (self.lower, self.upper))
 
+    @property
+    def _is_log_int(self) -> bool:
+        # The integers are not evenly spaced in log space, so splitting it evenly would
+        # merge some of them and never give others. Rounding gives all of them.
+        return self.round and self.bins is None and self.log_bounds is not None
+
     @classmethod
     def floating(
         cls,
@@ -246,7 +252,7 @@ class Domain(Generic[V]):
         if self.log_bounds is not None:
             x = x.clip(0, 1)
 
-        if q is not None:
+        if q is not None and not self._is_log_int:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
 
@@ -267,7 +273,7 @@ class Domain(Generic[V]):
             return x.to(dtype)
 
         q = self.cardinality
-        if q is not None:
+        if q is not None and not self._is_log_int:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
 
-- 
2.43.0


From f811ec308732d87f56694043fd81c2f883162506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 20/81] fix: casting integer tensors between domains lost
 precision

---
 neps/search_spaces/domain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 70e36bf..d8db25a 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -240,6 +240,10 @@ class Domain(Generic[V]):
         if self.is_unit_float and q is None:
             return x.to(dtype)
 
+        # NOTE: Otherwise torch would use 32-bit floats for integer tensors
+        if not x.is_floating_point():
+            x = x.to(torch.float64)
+
         if self.log_bounds is not None:
             x = torch.log(x)
             lower, upper = self.log_bounds
-- 
2.43.0


From 9192af4f113ad32eb69bf42438f835375e433837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 21/81] fix: e notation with an explicit plus sign, such as
 1e+3, was not recognised in a search space

---
 neps/search_spaces/yaml_search_space_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/yaml_search_space_utils.py b/neps/search_spaces/yaml_search_space_utils.py
index ff6d72a..ebe9d6e 100644
--- a/neps/search_spaces/yaml_search_space_utils.py
+++ b/neps/search_spaces/yaml_search_space_utils.py
@@ -46,7 +46,7 @@ def convert_scientific_notation(
         ValueError: If the value is a string and does not represent a valid number.
     """
 
-    e_notation_pattern = r"^-?\d+(\.\d+)?[eE]-?\d+$"
+    e_notation_pattern = r"^-?\d+(\.\d+)?[eE][+-]?\d+$"
 
     flag = False  # Flag if e notation was detected
 
-- 
2.43.0


From aa0ba6324780605918f3ef0ed676608e724680e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 22/81] fix: loading an integer neither checked its bounds nor
 updated its normalized value

---
 neps/search_spaces/hyperparameters/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 73861ad..6780b82 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -112,7 +112,7 @@ class IntegerParameter(NumericalParameter[int]):
 
     @override
     def load_from(self, value: Number) -> None:
-        self._value = int(np.rint(value))
+        self.set_value(int(np.rint(value)))
 
     @override
     def set_default(self, default: int | None) -> None:
-- 
2.43.0


From 7d58086077b7833ccacda677fe8dd034039c0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 23/81] fix: setting the default of a log-scaled integer kept
 its old prior, a rejected default was kept

---
 neps/search_spaces/hyperparameters/integer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 6780b82..35e705e 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -119,12 +119,16 @@ class IntegerParameter(NumericalParameter[int]):
         if default is None:
             self.default = None
             self.has_prior = False
+            self.log_default = None
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
+            # Raises if out of bounds, before anything is changed
+            self.float_hp.set_default(_default)
             self.default = _default
             self.has_prior = True
-            self.float_hp.set_default(_default)
+            if self.log:
+                self.log_default = float(np.log(_default))
 
     @override
     def set_value(self, value: int | None) -> None:
-- 
2.43.0


From 3420debf9867e486d9acbeb054067bdd26d806a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 24/81] fix: cloning a parameter lost a default confidence that
 was set later

---
 neps/search_spaces/parameter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/search_spaces/parameter.py b/neps/search_spaces/parameter.py
index e58014e..a0f1a55 100644
--- a/neps/search_spaces/parameter.py
+++ b/neps/search_spaces/parameter.py
@@ -266,6 +266,7 @@ class ParameterWithPrior(Parameter[ValueT, SerializedT]):
                 f" {list(self.DEFAULT_CONFIDENCE_SCORES.keys())}"
             )
 
+        self.default_confidence_choice = default_confidence
         self.default_confidence_score = self.DEFAULT_CONFIDENCE_SCORES[default_confidence]
 
     def sample(self, *, user_priors: bool = False) -> Self:
-- 
2.43.0


From ac522403297ec1d27a9b125df698697de61b50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 25/81] fix: a categorical kept a value that it rejected

---
 neps/search_spaces/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index d44499b..7c94a02 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -268,8 +268,8 @@ class CategoricalParameter(
             self.normalized_value = None
             return
 
-        self._value = value
         self._value_index = self.choices.index(value)
+        self._value = value
         self.normalized_value = float(self._value_index)
 
     @override
-- 
2.43.0


From 323db1095f8d56b9146b19e01c2d9ea11b2cfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:21 +0000
Subject: [PATCH 26/81] fix: reading a search space from a dictionary modified
 it, reading it again gave another space

---
 neps/search_spaces/search_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 34e885d..cc35fd5 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -8,6 +8,7 @@ import logging
 import operator
 import pprint
 from collections.abc import Hashable, Iterator, Mapping
+from copy import deepcopy
 from itertools import product
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Literal
@@ -137,6 +138,9 @@ def pipeline_space_from_yaml(  # noqa: C901
 
         if len(config) == 1 and "pipeline_space" in config:
             config = config["pipeline_space"]
+
+        # Do not modify the definition given by the caller
+        config = deepcopy(config)
         for name, details in config.items():  # type: ignore
             param_type = deduce_type(name, details)
 
-- 
2.43.0


From ec126d80609b19c41fb54a64c339c5d173436b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:32 +0000
Subject: [PATCH 27/81] fix: sampling with an integer dtype from a Sobol
 sequence or a prior only gave lower bounds

---
 neps/sampling/priors.py   | 4 +++-
 neps/sampling/samplers.py | 5 ++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index e4c6776..ad9148d 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -357,7 +357,9 @@ class CenteredPrior(Prior):
         )
         _n = torch.Size((n,)) if isinstance(n, int) else n
 
-        out = torch.empty(_out_shape, device=device, dtype=dtype)
+        # NOTE: What we draw is not in the target domains yet, so keep floats
+        _dtype = dtype if dtype is None or dtype.is_floating_point else torch.float64
+        out = torch.empty(_out_shape, device=device, dtype=_dtype)
         for i, dist in enumerate(self.distributions):
             out[..., i] = dist.distribution.sample(_n)
 
diff --git a/neps/sampling/samplers.py b/neps/sampling/samplers.py
index d343988..fa39b3a 100644
--- a/neps/sampling/samplers.py
+++ b/neps/sampling/samplers.py
@@ -160,8 +160,7 @@ class Sobol(Sampler):
 
         # If integer dtype, sobol will refuse, we need to cast then
         if dtype is not None and not dtype.is_floating_point:
-            x = sobol.draw(_n, dtype=torch.float64)
-            x = x.to(dtype=dtype, device=device)
+            x = sobol.draw(_n, dtype=torch.float64).to(device=device)
         else:
             x = sobol.draw(_n, dtype=dtype)
 
@@ -170,7 +169,7 @@ class Sobol(Sampler):
         if isinstance(n, torch.Size):
             x = x.view(*n, self.ncols)
 
-        return Domain.translate(x, frm=UNIT_FLOAT_DOMAIN, to=to)
+        return Domain.translate(x, frm=UNIT_FLOAT_DOMAIN, to=to, dtype=dtype)
 
 
 @dataclass
-- 
2.43.0


From 43a6741ca6a5a0f82aa320d052e0f076a11f6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:32 +0000
Subject: [PATCH 28/81] fix: log density of a prior used the wrong columns if
 some had no default and weighted the first one most

---
 neps/sampling/priors.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index ad9148d..fe062bf 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -326,14 +326,10 @@ class CenteredPrior(Prior):
 
         # Calculate the log probabilities of the sample domain tensors under their
         # respective distributions.
-        itr = iter(zip(self._meaningful_ixs, self._meaningful_dists, strict=False))
-        first_i, first_dist = next(itr)
-        log_probs = first_dist.log_prob(translated_x[..., first_i])
-
-        _weight = 1 / len(self.distributions)
-
-        for i, dist in itr:
-            log_probs = log_probs + _weight * dist.log_prob(translated_x[..., i])
+        # NOTE: `translated_x` only has the columns of the meaningful distributions
+        log_probs = self._meaningful_dists[0].log_prob(translated_x[..., 0])
+        for i, dist in enumerate(self._meaningful_dists[1:], start=1):
+            log_probs = log_probs + dist.log_prob(translated_x[..., i])
 
         return log_probs
 
-- 
2.43.0


From e05e83437f07ab690eac78c9aeaed144ee6b52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:35 +0000
Subject: [PATCH 29/81] fix: casting a single float to another domain used 32
 bits only

---
 neps/search_spaces/domain.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d8db25a..20d86f6 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -422,7 +422,7 @@ class Domain(Generic[V]):
         Returns:
             Value cast to this domain.
         """
-        return self.cast(torch.tensor(x), frm=frm).item()
+        return self.cast(_to_tensor(x), frm=frm).item()
 
     def to_unit_one(self, x: float | int) -> float:
         """Transform a single value from this domain to the unit interval [0, 1].
@@ -433,7 +433,7 @@ class Domain(Generic[V]):
         Returns:
             Value normalized to the unit interval [0, 1].
         """
-        return self.to_unit(torch.tensor(x)).item()
+        return self.to_unit(_to_tensor(x)).item()
 
     def as_integer_domain(self) -> Domain:
         """Get the integer version of this domain.
@@ -451,4 +451,9 @@ class Domain(Generic[V]):
         return Domain.indices(self.cardinality, is_categorical=self.is_categorical)
 
 
+def _to_tensor(x: float | int) -> Tensor:
+    # NOTE: By default, torch would only use 32 bits for a float
+    return torch.tensor(x, dtype=torch.float64 if isinstance(x, float) else None)
+
+
 UNIT_FLOAT_DOMAIN = Domain.floating(0.0, 1.0)
-- 
2.43.0


From d1308e4b9e5292b7df48e8725c5c761c46a10613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:13 +0000
Subject: [PATCH 30/81] fix: the grid of a search space contained duplicates of
 integer values

---
 neps/search_spaces/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index cc35fd5..6b9c631 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -630,8 +630,8 @@ class SearchSpace(Mapping[str, Any]):
                 _grid = (
                     _grid.astype(np.int64) if isinstance(hp, IntegerParameter) else _grid
                 )
-                _grid = np.unique(grid).tolist()
-                param_ranges.append(grid)
+                _grid = np.unique(_grid).tolist()
+                param_ranges.append(_grid)
                 continue
 
             raise NotImplementedError(f"Unknown Parameter type: {type(hp)}\n{hp}")
-- 
2.43.0


From c48ff6fba9460d574710a46fb320e9aef7de8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:13 +0000
Subject: [PATCH 31/81] fix: grid search without a seed repeated and left out
 points

---
 neps/optimizers/grid_search/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..70c915b 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -36,7 +36,8 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
+        # NOTE: The order has to be the same on every call and for every worker
+        rng = random.Random(0 if self.seed is None else self.seed)
         configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
-- 
2.43.0


From 8613e6c72f67d264a2fe261da73a60a6295d3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:58 +0000
Subject: [PATCH 32/81] fix: random search left the fidelity unset instead of
 using its maximum

---
 neps/optimizers/random_search/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/optimizers/random_search/optimizer.py b/neps/optimizers/random_search/optimizer.py
index 131ca6e..516084d 100644
--- a/neps/optimizers/random_search/optimizer.py
+++ b/neps/optimizers/random_search/optimizer.py
@@ -56,6 +56,8 @@ class RandomSearch(BaseOptimizer):
             user_priors=self.use_priors,
             ignore_fidelity=self.ignore_fidelity,
         )
+        if self.ignore_fidelity and config.fidelity is not None:
+            config.fidelity.set_value(config.fidelity.upper)
         config_id = str(n_trials + 1)
         return SampledConfig(
             config=config.hp_values(), id=config_id, previous_config_id=None
-- 
2.43.0


From a026b5b20beaa75333fc3b03b16a33f7de3891b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:58 +0000
Subject: [PATCH 33/81] fix: asynchronous successive halving failed with an
 early stopping rate

---
 neps/optimizers/multi_fidelity/promotion_policy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..9623961 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -98,7 +98,8 @@ class AsyncPromotionPolicy(PromotionPolicy):
     def retrieve_promotions(self) -> dict:
         """Returns the top 1/eta configurations per rung if enough configurations seen."""
         assert self.max_rung is not None
-        for rung in range(self.max_rung + 1):
+        # NOTE: With an early stopping rate there are no rungs below the lowest one
+        for rung in sorted(self.rung_members):
             if rung == self.max_rung:
                 # cease promotions for the highest rung (configs at max budget)
                 continue
-- 
2.43.0


From 7761b2c46996f23818e30b9c5fc2570a0032fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:58 +0000
Subject: [PATCH 34/81] fix: hypersphere sampling failed without a neighbour
 and barely extended a small radius

---
 neps/optimizers/multi_fidelity/sampling_policy.py | 3 ++-
 neps/optimizers/multi_fidelity_prior/priorband.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 02bcb90..7a09e37 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -134,6 +134,7 @@ class EnsemblePolicy(SamplingPolicy):
         """Samples a config from around the `incumbent` within radius as `distance`."""
         # TODO: how does tolerance affect optimization on landscapes of different scale
         sample_counter = 0
+        distance = max(distance, tolerance)
         from neps.optimizers.multi_fidelity_prior.utils import (
             compute_config_dist,
         )
@@ -146,7 +147,7 @@ class EnsemblePolicy(SamplingPolicy):
             # computing distance from incumbent
             d = compute_config_dist(config, incumbent)
             # checking if sample is within the hypersphere around the incumbent
-            if d < max(distance, tolerance):
+            if d < distance:
                 # accept sample
                 break
             sample_counter += 1
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index c41f4e4..0d16a8b 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -67,7 +67,8 @@ class PriorBandBase:
     def find_1nn_distance_from_incumbent(self, incumbent: SearchSpace) -> float:
         """Finds the distance to the nearest neighbour."""
         distances = self.find_all_distances_from_incumbent(incumbent)
-        return min(distances)
+        # every other config may be equal to the incumbent, then there is no neighbour
+        return min(distances, default=float("inf"))
 
     def find_incumbent(self, rung: int | None = None) -> SearchSpace:
         """Find the best performing configuration seen so far."""
-- 
2.43.0


From a7c8aff82e85ff1e0ad66cb6423a7a189107a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 35/81] fix: priors were applied to the columns of other
 parameters, as the encoder sorts by name

---
 neps/optimizers/bayesian_optimization/optimizer.py      | 5 ++++-
 neps/optimizers/initial_design.py                       | 5 ++++-
 neps/optimizers/multi_fidelity/hyperband.py             | 5 ++++-
 neps/optimizers/multi_fidelity/ifbo.py                  | 7 ++++++-
 neps/optimizers/multi_fidelity_prior/async_priorband.py | 3 ++-
 neps/optimizers/multi_fidelity_prior/priorband.py       | 3 ++-
 6 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index ad4eee1..9c0f8ff 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -127,8 +127,11 @@ class BayesianOptimization(BaseOptimizer):
         self.encoder = encoder or ConfigEncoder.default(
             params, constants=pipeline_space.constants
         )
+        # NOTE: The columns of the prior must be those of the encoder
         self.prior = (
-            Prior.from_parameters(params.values()) if use_priors is True else None
+            Prior.from_parameters(params[name] for name in self.encoder.transformers)
+            if use_priors is True
+            else None
         )
         self.use_cost = use_cost
         self.use_priors = use_priors
diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index eb99f42..2e35e62 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -117,7 +117,10 @@ def make_initial_design(  # noqa: PLR0912, C901
             case "uniform":
                 sampler = Sampler.uniform(ndim=len(params))
             case "prior":
-                sampler = Prior.from_parameters(params.values())
+                # NOTE: The columns of the prior must be those of the encoder
+                sampler = Prior.from_parameters(
+                    params[name] for name in encoder.transformers
+                )
             case _:
                 pass
 
diff --git a/neps/optimizers/multi_fidelity/hyperband.py b/neps/optimizers/multi_fidelity/hyperband.py
index 6dc4bdf..92b1b63 100644
--- a/neps/optimizers/multi_fidelity/hyperband.py
+++ b/neps/optimizers/multi_fidelity/hyperband.py
@@ -555,7 +555,10 @@ class MOBSTER(MFBOBase, AsynchronousHyperband):
                 **self.pipeline_space.numerical,
                 **self.pipeline_space.categoricals,
             }
-            prior = Prior.from_parameters(parameters.values())
+            # NOTE: The columns of the prior must be those of the model's encoder
+            prior = Prior.from_parameters(
+                parameters[name] for name in sorted(parameters)
+            )
         else:
             prior = None
 
diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e70cf70..1e0a264 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -141,7 +141,12 @@ class IFBO(BaseOptimizer):
         self._initial_design: list[dict[str, Any]] | None = None
 
         params = {**space.numerical, **space.categoricals}
-        self._prior = Prior.from_parameters(params.values()) if use_priors else None
+        # NOTE: The columns of the prior must be those of the encoder
+        self._prior = (
+            Prior.from_parameters(params[name] for name in sorted(params))
+            if use_priors
+            else None
+        )
         self._config_encoder: ConfigEncoder = ConfigEncoder.default(
             params,
             constants=self.pipeline_space.constants,
diff --git a/neps/optimizers/multi_fidelity_prior/async_priorband.py b/neps/optimizers/multi_fidelity_prior/async_priorband.py
index 827ad5f..7441069 100644
--- a/neps/optimizers/multi_fidelity_prior/async_priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/async_priorband.py
@@ -121,7 +121,8 @@ class PriorBandAsha(MFBOBase, PriorBandBase, AsynchronousSuccessiveHalvingWithPr
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            # NOTE: The columns of the prior must be those of the model's encoder
+            prior=Prior.from_parameters(parameters[name] for name in sorted(parameters)),
         )
 
     def get_config_and_ids(
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index 0d16a8b..3ea0b68 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -387,7 +387,8 @@ class PriorBand(MFBOBase, HyperbandCustomDefault, PriorBandBase):
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            # NOTE: The columns of the prior must be those of the model's encoder
+            prior=Prior.from_parameters(parameters[name] for name in sorted(parameters)),
         )
 
         for _, sh in self.sh_brackets.items():
-- 
2.43.0


From e0e23d3a2bcddfe3b6feb682a3b7881c9203b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 36/81] fix: the weight of the prior in a log acquisition
 function did not decay, its exponent was added

---
 .../bayesian_optimization/acquisition_functions/pibo.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
index 9efac5e..d0d463a 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
@@ -40,7 +40,7 @@ def apply_pibo_acquisition_weight(
     prior_exponent: float,
 ) -> Tensor:
     if acq._log:
-        weighted_log_probs = prior.log_prob(X, frm=x_domain) + prior_exponent
+        weighted_log_probs = prior.log_prob(X, frm=x_domain) * prior_exponent
         return acq_values + weighted_log_probs
 
     weighted_probs = prior.prob(X, frm=x_domain).pow(prior_exponent)
-- 
2.43.0


From 801f4b74d79cefaf72af0d927bcb859607d874ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 37/81] fix: cost-aware Bayesian optimization failed if any
 evaluation had no cost

---
 neps/optimizers/bayesian_optimization/models/gp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 44b6fa2..342c01f 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -365,7 +365,7 @@ def fit_and_acquire_from_gp(
 
         # We simply ignore missing costs when training the cost GP.
         missing_costs = torch.isnan(costs)
-        if missing_costs.any():
+        if missing_costs.all():
             raise ValueError(
                 "Must have at least some configurations reported with a cost"
                 " if using costs with a GP."
@@ -373,8 +373,8 @@ def fit_and_acquire_from_gp(
 
         if missing_costs.any():
             not_missing_mask = ~missing_costs
-            x_train_cost = costs[not_missing_mask]
-            y_train_cost = x_train[not_missing_mask]
+            x_train_cost = x_train[not_missing_mask]
+            y_train_cost = costs[not_missing_mask]
         else:
             x_train_cost = x_train
             y_train_cost = costs
-- 
2.43.0


From 0297049f4f17a2043dee833d5093c324a4e83efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:15 +0000
Subject: [PATCH 38/81] fix: the initial design only covered the lower part of
 the search space

---
 neps/optimizers/initial_design.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index 2e35e62..6c26f7d 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -125,7 +125,11 @@ def make_initial_design(  # noqa: PLR0912, C901
                 pass
 
         encoded_configs = sampler.sample(sample_size * 2, to=encoder.domains, seed=seed)
-        uniq_x = torch.unique(encoded_configs, dim=0)
+        # NOTE: `torch.unique` sorts, its first rows would be the lower part of the space
+        first_of: dict[tuple[float, ...], int] = {}
+        for i, row in enumerate(encoded_configs.tolist()):
+            first_of.setdefault(tuple(row), i)
+        uniq_x = encoded_configs[list(first_of.values())]
         sample_configs = encoder.decode(uniq_x[:sample_size])
         configs.extend([{**config, **fids} for config in sample_configs])
 
-- 
2.43.0


From 0fb569f3f60dc6a29c89686c14a4b1cb72175020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:01 +0000
Subject: [PATCH 39/81] fix: cost-aware Bayesian optimization failed once more
 than the cost budget was spent

---
 neps/optimizers/bayesian_optimization/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 9c0f8ff..b9bf352 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -193,7 +193,10 @@ class BayesianOptimization(BaseOptimizer):
                 )
             if budget_info.max_cost_budget is None:
                 raise ValueError("Cost budget must be set if using cost")
-            cost_percent = budget_info.used_cost_budget / budget_info.max_cost_budget
+            # NOTE: More may be spent, by parallel workers or if the budget was increased
+            cost_percent = min(
+                1.0, budget_info.used_cost_budget / budget_info.max_cost_budget
+            )
 
         # If we should use the prior, weight the acquisition function by
         # the probability of it being sampled from the prior.
-- 
2.43.0


From 8624f5b1af6fbec51258dfaaa1939427d23062f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:48 +0000
Subject: [PATCH 40/81] fix: Bayesian optimization failed with more than 20
 combinations of categories

---
 neps/optimizers/bayesian_optimization/models/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 342c01f..3518253 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -210,7 +210,7 @@ def optimize_acq(
     return optimize_acqf_mixed(
         acq_function=acq_fn,
         bounds=bounds,
-        num_restarts=min(num_restarts // n_combos, 2),
+        num_restarts=max(1, min(num_restarts // n_combos, 2)),
         raw_samples=n_intial_start_points,
         q=n_candidates_required,
         fixed_features_list=fixed_cats,
-- 
2.43.0


From 3a673edbeb0548786ffb763a5b9a7d41da23e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:20 +0000
Subject: [PATCH 41/81] fix: model-based multi-fidelity searchers failed once
 their initial design was evaluated

---
 neps/optimizers/multi_fidelity/mf_bo.py       | 15 ++--
 .../multi_fidelity/sampling_policy.py         | 68 +++++++------------
 2 files changed, 34 insertions(+), 49 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/mf_bo.py b/neps/optimizers/multi_fidelity/mf_bo.py
index 6686a84..98dba41 100755
--- a/neps/optimizers/multi_fidelity/mf_bo.py
+++ b/neps/optimizers/multi_fidelity/mf_bo.py
@@ -4,6 +4,8 @@ import logging
 from copy import deepcopy
 from typing import TYPE_CHECKING, Any, Literal
 
+import numpy as np
+
 
 def update_fidelity(config: SearchSpace, fidelity: int | float) -> SearchSpace:
     assert config.fidelity is not None
@@ -134,7 +136,8 @@ class MFBOBase:
         """The highest rung that can fit a model, `None` if no rung is eligible."""
         rung = self.max_rung
         while rung >= self.min_rung:
-            if len(self.rung_histories[rung]["config"]) >= self.init_size:
+            perfs = self.rung_histories[rung]["perf"]
+            if len(perfs) >= self.init_size and np.isfinite(perfs).any():
                 return rung
             rung -= 1
         return None
@@ -158,6 +161,12 @@ class MFBOBase:
             resources = total_resources / self.max_budget
             if resources < self.init_size:
                 return True
+            # there is nothing to model if all evaluations failed
+            if not any(
+                np.isfinite(history["perf"]).any()
+                for history in self.rung_histories.values()
+            ):
+                return True
         else:
             raise ValueError("Choice of modelling_type not in {{'rung', 'joint'}}")
         return False
@@ -169,7 +178,6 @@ class MFBOBase:
     ) -> SearchSpace:
         """Samples configuration from policies or random."""
         if self.model_based and not self.is_init_phase():
-            incumbent = None
             if self.modelling_type == "rung":
                 # `rung` should not be None when not in init phase
                 active_max_rung = self._active_rung()
@@ -178,8 +186,6 @@ class MFBOBase:
             elif self.modelling_type == "joint":
                 fidelity = self.rung_map[rung]
                 active_max_fidelity = None
-                # IMPORTANT step for correct 2-step acquisition
-                incumbent = min(self.rung_histories[rung]["perf"])
             else:
                 raise ValueError("Choice of modelling_type not in 'rung', 'joint'")
             assert (
@@ -190,7 +196,6 @@ class MFBOBase:
             config = self.model_policy.sample(
                 active_max_fidelity=active_max_fidelity,
                 fidelity=fidelity,
-                incumbent=incumbent,
                 **self.sampling_args,
             )
         elif self.sampling_policy is not None:
diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 7a09e37..9a1bda1 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -5,7 +5,6 @@ from abc import ABC, abstractmethod
 from typing import TYPE_CHECKING, Any, Literal
 
 import numpy as np
-import pandas as pd
 import torch
 from botorch.acquisition import (
     AcquisitionFunction,
@@ -30,7 +29,6 @@ if TYPE_CHECKING:
 TOLERANCE = 1e-2  # 1%
 SAMPLE_THRESHOLD = 1000  # num samples to be rejected for increasing hypersphere radius
 DELTA_THRESHOLD = 1e-2  # 1%
-TOP_EI_SAMPLE_COUNT = 10
 
 logger = logging.getLogger(__name__)
 
@@ -309,8 +307,15 @@ class ModelPolicy(SamplingPolicy):
         decay_t: float | None = None,
     ) -> None:
         x_train = self._encoder.encode([config.hp_values() for config in train_x])
-        x_pending = self._encoder.encode([config.hp_values() for config in pending_x])
+        x_pending = (
+            self._encoder.encode([config.hp_values() for config in pending_x])
+            if len(pending_x) > 0
+            else None
+        )
         y_train = torch.tensor(train_y, dtype=torch.float64, device=self.device)
+        # Failed evaluations do not have a usable loss, see `encode_trials_for_gp`
+        y_train[~y_train.isfinite()] = torch.nan
+        y_train = torch.nan_to_num(y_train, nan=torch.nanmedian(y_train).item())
 
         # TODO: Most of this just copies BO and the duplication can be replaced
         # once we don't have the two stage `update_model()` and `sample()`
@@ -356,16 +361,10 @@ class ModelPolicy(SamplingPolicy):
     ) -> SearchSpace:
         """Performs the equivalent of optimizing the acquisition function.
 
-        Performs 2 strategies as per the arguments passed:
-            * If fidelity is not None, triggers the case when the surrogate has been
-              trained jointly with the fidelity dimension, i.e., all observations ever
-              recorded. In this case, the EI for random samples is evaluated at the
-              `fidelity` where the new sample will be evaluated. The top-10 are selected,
-              and the EI for them is evaluated at the target/mmax fidelity.
-            * If active_max_fidelity is not None, triggers the case when a surrogate is
-              trained per fidelity. In this case, all samples have their fidelity
-              variable set to the same value. This value is same as that of the fidelity
-              value of the configs in the training data.
+        Random configurations are scored by the acquisition function set by
+        `update_model()` and the best one is returned, at the given `fidelity` (if the
+        surrogate was trained on all rungs) or `active_max_fidelity` (if the surrogate
+        was trained on one rung).
         """
         # sampling random configurations
         samples = [
@@ -373,34 +372,15 @@ class ModelPolicy(SamplingPolicy):
             for _ in range(SAMPLE_THRESHOLD)
         ]
 
-        if fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
-            _inc_copy = self.acquisition.incumbent
-            # TODO: better design required, for example, not import torch
-            #  right now this case handles the 2-step acquisition in `sample`
-            if "incumbent" in kwargs:
-                # sets the incumbent to the best score at the required fidelity for
-                # correct computation of EI scores
-                self.acquisition.incumbent = torch.tensor(kwargs["incumbent"])
-            # updating the fidelity of the sampled configurations
-            samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
-            # computing EI at the given `fidelity`
-            eis = self.acquisition.eval(x=samples, asscalar=True)
-            # extracting the 10 highest scores
-            _ids = np.argsort(eis)[-TOP_EI_SAMPLE_COUNT:]
-            samples = pd.Series(samples).iloc[_ids].values.tolist()
-            # setting the fidelity to the maximum fidelity
-            self.acquisition.optimize_on_max_fidelity = True
-            self.acquisition.incumbent = _inc_copy
-
-        if active_max_fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
-            fidelity = active_max_fidelity
-            samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
-
-        # computes the EI for all `samples`
-        eis = self.acquisition.eval(x=samples, asscalar=True)
-        # extracting the highest scored sample
-        return samples[np.argmax(eis)]
+        # NOTE: The fidelity is not part of what the encoder encodes, hence the scores do
+        # not depend on it and only the returned configuration needs the right value.
+        target = fidelity if fidelity is not None else active_max_fidelity
+        if target is not None:
+            samples = [update_fidelity(sample, target) for sample in samples]
+
+        # computes the acquisition value of all `samples` and returns the best one
+        assert self._acq is not None, "`update_model()` must be called before sampling"
+        x = self._encoder.encode([sample.hp_values() for sample in samples])
+        with torch.no_grad():
+            scores = self._acq(x.unsqueeze(1))
+        return samples[int(scores.argmax())]
-- 
2.43.0


From 13479ec14ae80c836d6e6601902cbaaf95e9866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:20 +0000
Subject: [PATCH 42/81] fix: model-based multi-fidelity searchers only used the
 prior once it was insignificant

---
 neps/optimizers/multi_fidelity/sampling_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 9a1bda1..af0abc1 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -341,7 +341,7 @@ class ModelPolicy(SamplingPolicy):
             # arbitrary term. This 10 is extracted from the old DecayingWeightedPrior
             pibo_exp_term = 10 / decay_t
             significant_lower_bound = 1e-4  # No significant impact beyond this point
-            if pibo_exp_term < significant_lower_bound:
+            if pibo_exp_term > significant_lower_bound:
                 acq = pibo_acquisition(
                     acq,
                     prior=self.prior,
-- 
2.43.0


From 133531c115b102e02e3c1b8007ed1a5bb5742cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:35 +0000
Subject: [PATCH 43/81] fix: mutating an integer with few values and a small
 deviation never ended

---
 neps/search_spaces/hyperparameters/integer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 35e705e..cb53dae 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -184,6 +184,7 @@ class IntegerParameter(NumericalParameter[int]):
 
         # TODO(eddiebergman): This whole thing can be vectorized, not sure
         # if we ever have enough num_neighbours to make it worth it
+        n_rejected = 0
         while len(neighbours) < num_neighbours:
             n_val = np.random.normal(vectorized_val, std)
             if n_val < 0 or n_val > 1:
@@ -191,6 +192,10 @@ class IntegerParameter(NumericalParameter[int]):
 
             sampled_value = self.normalized_to_value(n_val)
             if sampled_value == self.value:
+                # With few integers, a small std never reaches another one
+                n_rejected += 1
+                if n_rejected % 100 == 0:
+                    std *= 2
                 continue
 
             neighbour = self.clone()
-- 
2.43.0


From 7a4cd194ef2ee7fda4af40b3ba93d2507bac3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:35 +0000
Subject: [PATCH 44/81] fix: linear prior weights failed with an early stopping
 rate

---
 neps/optimizers/multi_fidelity_prior/priorband.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index 3ea0b68..b621ea0 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -191,7 +191,7 @@ class PriorBandBase:
                 stop=w_prior_max_rung,
                 endpoint=True,
                 num=num_rungs,
-            )[rung]
+            )[sorted(self.rung_map).index(rung)]
         elif self.prior_weight_type == "50-50":
             _w_random = 1
             _w_prior = 1
-- 
2.43.0


From cdba1f93869187408d7c0415e393d5cd3434be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:12 +0000
Subject: [PATCH 45/81] fix: Bayesian optimization failed after a NaN or
 infinite loss

---
 neps/optimizers/bayesian_optimization/models/gp.py | 5 ++++-
 neps/optimizers/bayesian_optimization/optimizer.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 3518253..7542316 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import math
 from collections.abc import Mapping
 from dataclasses import dataclass
 from functools import reduce
@@ -243,8 +244,10 @@ def encode_trials_for_gp(
 
         train_configs.append(trial.config)
 
+        # NOTE: A GP can not model an infinite loss either
         loss = trial.report.loss
-        train_losses.append(torch.nan if loss is None else loss)
+        usable = loss is not None and math.isfinite(loss)
+        train_losses.append(loss if usable else torch.nan)
 
         cost = trial.report.cost
         train_costs.append(torch.nan if cost is None else cost)
diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index b9bf352..e06f76f 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -171,7 +171,9 @@ class BayesianOptimization(BaseOptimizer):
         # The initial design may be handed out while none of it is evaluated yet (or all
         # of it failed), there is nothing to fit a GP on in that case.
         if not any(
-            trial.report is not None and trial.report.loss is not None
+            trial.report is not None
+            and trial.report.loss is not None
+            and math.isfinite(trial.report.loss)
             for trial in trials.values()
         ):
             sampler = self.prior or Sampler.uniform(ndim=self.encoder.ncols)
-- 
2.43.0


From 6498a5328612cf1511676caaaec3d01212b91853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:13 +0000
Subject: [PATCH 46/81] fix: a NaN loss blocked the rung of its config in the
 successive-halving searchers

---
 neps/optimizers/multi_fidelity/successive_halving.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 437f413..977a6c9 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -229,6 +229,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
                     if self.loss_value_on_error is not None
                     else np.inf
                 )
+            elif np.isnan(perf):
+                # Finished, but without a usable loss
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
-- 
2.43.0


From 4029aae10adc3e6257761ff783929d82dd3fdce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 47/81] fix: searcher=None was refused although documented to
 let NePS choose

---
 neps/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/api.py b/neps/api.py
index e69c0f4..bb6978c 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -201,7 +201,9 @@ def run(
 
     # Check to verify if the target directory contains history of another optimizer state
     # This check is performed only when the `searcher` is built during the run
-    if not isinstance(settings.searcher, (BaseOptimizer, str, dict, Path)):
+    if settings.searcher is not None and not isinstance(
+        settings.searcher, (BaseOptimizer, str, dict, Path)
+    ):
         raise ValueError(
             f"Unrecognized `searcher` of type {type(settings.searcher)}. Not str or "
             f"BaseOptimizer."
-- 
2.43.0


From dbb2a1703af722866005e2627b668821c2611c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 48/81] fix: a searcher class failed with a pipeline space
 given as a file or ConfigSpace

---
 neps/api.py | 58 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/neps/api.py b/neps/api.py
index bb6978c..bb23a74 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -163,7 +163,7 @@ def run(
     # special case if you load your own optimizer via run_args
     if inspect.isclass(settings.searcher):
         if issubclass(settings.searcher, BaseOptimizer):
-            search_space = SearchSpace(**settings.pipeline_space)
+            search_space = _to_search_space(settings.pipeline_space)
             # aligns with the behavior of the internal neps searcher which also overwrites
             # its arguments by using searcher_kwargs
             # TODO habe hier searcher kwargs gedroppt, sprich das merging muss davor statt
@@ -257,33 +257,15 @@ def run(
         )
 
 
-def _run_args(
-    searcher_info: dict,
+def _to_search_space(
     pipeline_space: (
         dict[str, Parameter | CS.ConfigurationSpace]
         | str
         | Path
         | CS.ConfigurationSpace
         | None
-    ) = None,
-    max_cost_total: int | float | None = None,
-    ignore_errors: bool = False,
-    loss_value_on_error: None | float = None,
-    cost_value_on_error: None | float = None,
-    searcher: (
-        Literal[
-            "default",
-            "bayesian_optimization",
-            "random_search",
-            "hyperband",
-            "priorband",
-            "mobster",
-            "asha",
-        ]
-        | BaseOptimizer
-    ) = "default",
-    **searcher_kwargs,
-) -> tuple[BaseOptimizer, dict]:
+    ),
+) -> SearchSpace:
     try:
         # Raising an issue if pipeline_space is None
         if pipeline_space is None:
@@ -308,11 +290,41 @@ def _run_args(
         pipeline_space = new_pipeline_space
 
         # Transform to neps internal representation of the pipeline space
-        pipeline_space = SearchSpace(**pipeline_space)
+        return SearchSpace(**pipeline_space)
     except TypeError as e:
         message = f"The pipeline_space has invalid type: {type(pipeline_space)}"
         raise TypeError(message) from e
 
+
+def _run_args(
+    searcher_info: dict,
+    pipeline_space: (
+        dict[str, Parameter | CS.ConfigurationSpace]
+        | str
+        | Path
+        | CS.ConfigurationSpace
+        | None
+    ) = None,
+    max_cost_total: int | float | None = None,
+    ignore_errors: bool = False,
+    loss_value_on_error: None | float = None,
+    cost_value_on_error: None | float = None,
+    searcher: (
+        Literal[
+            "default",
+            "bayesian_optimization",
+            "random_search",
+            "hyperband",
+            "priorband",
+            "mobster",
+            "asha",
+        ]
+        | BaseOptimizer
+    ) = "default",
+    **searcher_kwargs,
+) -> tuple[BaseOptimizer, dict]:
+    pipeline_space = _to_search_space(pipeline_space)
+
     # Load the information of the optimizer
     if (
         isinstance(searcher, (str, Path))
-- 
2.43.0


From 1b1ff7b1c6059606b8f82c8832d54b10febe3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 49/81] fix: a default of the fidelity counted as a prior when
 choosing the searcher

---
 neps/search_spaces/search_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 6b9c631..5060b04 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -222,7 +222,8 @@ class SearchSpace(Mapping[str, Any]):
                 _fidelity_param = hp
                 _fidelity_name = name
 
-            if isinstance(hp, ParameterWithPrior) and hp.has_prior:
+            # NOTE: The default of a fidelity is documented to be ignored as a prior
+            elif isinstance(hp, ParameterWithPrior) and hp.has_prior:
                 _has_prior = True
 
         self.hyperparameters: dict[str, Parameter] = dict(_hyperparameters)
-- 
2.43.0


From e49b4be9036d62698bdc6f93760f76df80e2f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 50/81] fix: arguments of an overwritten searcher class from
 run_args were passed to the new searcher

---
 neps/utils/run_args.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/utils/run_args.py b/neps/utils/run_args.py
index 9f5cc60..69fed35 100644
--- a/neps/utils/run_args.py
+++ b/neps/utils/run_args.py
@@ -552,6 +552,10 @@ class Settings:
     def merge(self, func_args: dict, yaml_args: dict) -> dict:
         """Merge func_args and yaml_args. func_args gets priority over yaml_args."""
         # Initialize with YAML settings
+        yaml_args = yaml_args.copy()
+        if not isinstance(func_args.get(SEARCHER, Default(None)), Default):
+            # These belong to the searcher of the YAML, which is overwritten
+            yaml_args.pop(SEARCHER_KWARGS, None)
         merged_settings = yaml_args.copy()
 
         # overwrite or merge keys
-- 
2.43.0


From fad96e838cb0fa422c31786b8b0996c0b60554bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 51/81] fix: grid search could not be chosen by its strategy
 name, it lacked the common arguments

---
 neps/optimizers/grid_search/optimizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index 70c915b..a65d762 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -19,8 +19,18 @@ class GridSearch(BaseOptimizer):
         pipeline_space: SearchSpace,
         grid_step_size: int = 10,
         seed: int | None = None,
+        budget: int | float | None = None,
+        loss_value_on_error: float | None = None,
+        cost_value_on_error: float | None = None,
+        ignore_errors: bool = False,
     ):
-        super().__init__(pipeline_space=pipeline_space)
+        super().__init__(
+            pipeline_space=pipeline_space,
+            budget=budget,
+            loss_value_on_error=loss_value_on_error,
+            cost_value_on_error=cost_value_on_error,
+            ignore_errors=ignore_errors,
+        )
         grid = self.pipeline_space.get_search_space_grid(
             size_per_numerical_hp=grid_step_size,
             include_endpoints=True,
-- 
2.43.0


From ab30ce19174b8fcb525e0f8e20174e7a5d04b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:43 +0000
Subject: [PATCH 52/81] fix: ifBO did not work with a fidelity of at most 1 and
 misplaced fidelities not starting at 1

The budgets given to the model were mapped to [1 / max, 1], which is empty (or
reversed) for a fidelity such as a fraction in [0.1, 1].
---
 neps/optimizers/multi_fidelity/ifbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 1e0a264..e3be444 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -163,7 +163,7 @@ class IFBO(BaseOptimizer):
         self._fid_domain = space.fidelity.domain
 
         # Domain in which we should pass budgets to ifbo model
-        self._budget_domain = Domain.floating(1 / self._max_budget, 1)
+        self._budget_domain = Domain.floating(self._min_budget / self._max_budget, 1)
 
         # Domain from which we assign an index to each budget
         self._budget_ix_domain = Domain.indices(fid_bins)
@@ -225,7 +225,7 @@ class IFBO(BaseOptimizer):
         # NOTE: Can't really abstract this, requires knowledge that:
         # 1. The encoding is such that the loss is 1 - loss
         # 2. The budget is the second column
-        # 3. The budget is encoded between 1/max_fid and 1
+        # 3. The budget is encoded between min_fid/max_fid and 1
         rng = np.random.RandomState(len(trials))
         # Cast the a random budget index into the ftpfn budget domain
         horizon_increment = self._budget_domain.cast_one(
-- 
2.43.0


From 6012cb76bac929790efef1cbfa0325dae27a6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:43 +0000
Subject: [PATCH 53/81] fix: ifBO did not step through the fidelity in steps of
 step_size

There is one more budget than there are steps between them. The steps came out
longer than `step_size` and a single step failed with an error from numpy.
---
 neps/optimizers/multi_fidelity/ifbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e3be444..9f27338 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -166,7 +166,8 @@ class IFBO(BaseOptimizer):
         self._budget_domain = Domain.floating(self._min_budget / self._max_budget, 1)
 
         # Domain from which we assign an index to each budget
-        self._budget_ix_domain = Domain.indices(fid_bins)
+        # NOTE: With `n` steps between the lowest and highest, there are `n + 1` budgets
+        self._budget_ix_domain = Domain.indices(fid_bins + 1)
 
     @override
     def ask(
-- 
2.43.0


From af729e87b6d933a244aee2559bf91445830070ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 54/81] fix: ifBO failed if exactly one configuration could be
 continued

With a single point to score, squeezing all dimensions also removed the one of the
points.
---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 680c10b..cc32423 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -342,7 +342,7 @@ class FTPFNSurrogate:
         train_y: torch.Tensor,
         test_x: torch.Tensor,
     ) -> torch.Tensor:
-        logits = self._get_logits(train_x, train_y, test_x).squeeze()
+        logits = self._get_logits(train_x, train_y, test_x).squeeze(1)
         return self.ftpfn.model.criterion.mean(logits)
 
     @torch.no_grad()  # type: ignore
@@ -354,7 +354,7 @@ class FTPFNSurrogate:
         y_best: torch.Tensor | float,
     ) -> torch.Tensor:
         logits = self._get_logits(train_x, train_y, test_x)
-        return self.ftpfn.model.criterion.pi(logits.squeeze(), best_f=y_best)
+        return self.ftpfn.model.criterion.pi(logits.squeeze(1), best_f=y_best)
 
     @torch.no_grad()  # type: ignore
     def get_ei(
@@ -365,7 +365,7 @@ class FTPFNSurrogate:
         y_best: torch.Tensor | float,
     ) -> torch.Tensor:
         logits = self._get_logits(train_x, train_y, test_x)
-        return self.ftpfn.model.criterion.ei(logits.squeeze(), best_f=y_best)
+        return self.ftpfn.model.criterion.ei(logits.squeeze(1), best_f=y_best)
 
     @torch.no_grad()  # type: ignore
     def get_lcb(
-- 
2.43.0


From 2aad4793fdab4cf411ba96355d0b00b3e0cc34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 55/81] fix: priors of categoricals encoded as floats gave
 values outside of their domain

The samples of the categorical distribution are the indices of the choices, but they
were handled as if they were in the domain of the encoded values already. ifBO failed
with an IndexError because of it (or chose another value).
---
 neps/sampling/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index fe062bf..1f36f1a 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -227,7 +227,7 @@ class Prior(Sampler, Protocol):
                     distribution=torch.distributions.Categorical(
                         probs=weights, validate_args=False
                     ),
-                    domain=domain,
+                    domain=domain_as_ints,
                 )
                 distributions.append(dist)
                 continue
-- 
2.43.0


From dd73d8fa03e294df256b407f51155b40b685ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 56/81] fix: ifBO continued configurations that are being
 evaluated and changed the ones it continued

A continuation was decoded from the 32 bit data of the model, so it was not quite the
configuration it is meant to continue. Its fidelity could be off such that it was
evaluated twice under the same id or named a previous trial that does not exist.
Neither was it considered that the next step may be in progress already.
---
 neps/optimizers/multi_fidelity/ifbo.py | 41 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 9f27338..ffa12a6 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -214,14 +214,29 @@ class IFBO(BaseOptimizer):
         pending_mask = torch.isnan(y)
         if pending_mask.any():
             not_pending_mask = ~pending_mask
-            not_pending_X = X[not_pending_mask]
             y[pending_mask] = ftpfn.get_mean_performance(
-                train_x=not_pending_X,
+                train_x=X[not_pending_mask],
                 train_y=y[not_pending_mask],
                 test_x=X[pending_mask],
             )
-        else:
-            not_pending_X = X
+
+        # The evaluation with the highest fidelity of each configuration
+        latest: dict[int, str] = {}
+        for config_id in sorted(
+            trials, key=lambda tid: trials[tid].config[self._fidelity_name]
+        ):
+            latest[int(config_id.split("_", maxsplit=1)[0])] = config_id
+
+        # It can be continued if it's evaluated, but not fully
+        continuable = torch.tensor(
+            [
+                config_id in latest.values()
+                and trial.report is not None
+                and trial.config[self._fidelity_name] < self._max_budget
+                for config_id, trial in trials.items()
+            ],
+            device=self.device,
+        )
 
         # NOTE: Can't really abstract this, requires knowledge that:
         # 1. The encoding is such that the loss is 1 - loss
@@ -257,7 +272,7 @@ class IFBO(BaseOptimizer):
             # Acquisition function
             acq_function=_mfpi_random,
             # Which acquisition samples to consider for continuation
-            continuation_samples=not_pending_X,
+            continuation_samples=X[continuable],
             # How to generate some initial samples
             initial_samplers=[
                 (Sampler.sobol(ndim=sample_dims), 512),
@@ -269,7 +284,7 @@ class IFBO(BaseOptimizer):
             local_search_sample_size=256,
             local_search_confidence=0.95,
         )
-        _id, fid, config = decode_ftpfn_data(
+        _id, _, config = decode_ftpfn_data(
             best_row,
             self._config_encoder,
             budget_domain=self._budget_domain,
@@ -277,16 +292,20 @@ class IFBO(BaseOptimizer):
         )[0]
 
         if _id is None:
-            config[self._fidelity_name] = fid
+            config[self._fidelity_name] = self._min_budget
             return SampledConfig(id=f"{new_id}_0", config=config)
+
         # Convert fidelity to budget index, bump by 1 and convert back
-        budget_ix = self._budget_ix_domain.cast_one(fid, frm=self._fid_domain)
+        # NOTE: The row is only an approximation (32 bit) of what was evaluated
+        previous = trials[latest[_id]]
+        budget_ix = self._budget_ix_domain.cast_one(
+            previous.config[self._fidelity_name], frm=self._fid_domain
+        )
         next_ix = budget_ix + 1
         next_fid = self._fid_domain.cast_one(next_ix, frm=self._budget_ix_domain)
 
-        config[self._fidelity_name] = next_fid
         return SampledConfig(
             id=f"{_id}_{next_ix}",
-            config=config,
-            previous_config_id=f"{_id}_{budget_ix}",
+            config={**previous.config, self._fidelity_name: next_fid},
+            previous_config_id=latest[_id],
         )
-- 
2.43.0


From 23d03a23b67c34f88d68ebcad4847513d2a8a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 57/81] fix: ifBO gave failed configurations the best possible
 score

The error value was used as loss, from which the score is obtained as 1 - loss.
---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index cc32423..e2b3d72 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -128,7 +128,7 @@ def encode_ftpfn(
 
         The FTPFN model requires that all loss values lie in the interval [0, 1].
         By default, using the value of `error_value=0.0`, we encode crashed configurations
-        as having an error value of 0.
+        as having a score of 0, i.e. the worst one.
 
     Args:
         trials: The trials to encode
@@ -173,7 +173,8 @@ def encode_ftpfn(
         [
             pending_value
             if trial.report is None
-            else (error_value if trial.report.loss is None else trial.report.loss)
+            # NOTE: The error value is a score, i.e. something to maximize
+            else (1 - error_value if trial.report.loss is None else trial.report.loss)
             for trial in trials.values()
         ],
         device=device,
-- 
2.43.0


From 4b837385cfa53c1737b822cd8e9827946a159b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 58/81] fix: ifBO did not notice losses outside of [0, 1] while
 trials are pending

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index e2b3d72..7e76837 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -180,7 +180,8 @@ def encode_ftpfn(
         device=device,
         dtype=dtype,
     )
-    if minimize_ys.max() > 1 or minimize_ys.min() < 0:
+    # NOTE: Not using min/max as those are nan if there are pending trials
+    if (minimize_ys > 1).any() or (minimize_ys < 0).any():
         raise RuntimeError(
             "ifBO requires that all loss values reported lie in the interval [0, 1]"
             " but recieved loss value outside of that range!"
-- 
2.43.0


From eb7bbccb3887f48a0d7dbd0a444880cddfa2b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 59/81] fix: ifBO skipped the lowest fidelity if it is a float

E.g. (1.0 - 0.1) // 0.1 is 8, so it would start with 0.2 instead of 0.1.
---
 neps/optimizers/multi_fidelity/ifbo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index ffa12a6..a0da09d 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -56,10 +56,11 @@ def _adjust_pipeline_space_to_match_stepsize(
     # Use the fact that we can always write x = n*k + r
     # where k = stepsize and x = (fid_upper - fid_lower)
     # > x = n*k + r
-    # > n = x // k
+    # > n = floor(x / k)
     # > r = x - n*k
     x = fidelity.upper - fidelity.lower
-    n = int(x // step_size)
+    # NOTE: With floats, the quotient may come out slightly below a whole number
+    n = int(x / step_size + 1e-9)
 
     if n <= 0:
         raise ValueError(
@@ -67,7 +68,7 @@ def _adjust_pipeline_space_to_match_stepsize(
             "Considering lowering this parameter to ifBO."
         )
 
-    r = x - n * step_size
+    r = max(0, x - n * step_size)
     new_lower = fidelity.lower + r
     new_fid = fidelity.__class__(
         lower=new_lower,
-- 
2.43.0


From 4e47ec45f296dcdba6ca7c18a143fe2f10e08fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:39 +0000
Subject: [PATCH 60/81] fix: values decoded from 32 bit data could be slightly
 outside of their bounds

They were clipped to the bounds as 32 bit numbers.
---
 neps/search_spaces/domain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 20d86f6..23adc3f 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -293,8 +293,9 @@ class Domain(Generic[V]):
         if self.round:
             x = torch.round(x)
 
-        # NOTE: Rounding might end up slightly outside of the bounds
-        return x.clip(self.lower, self.upper).type(dtype)
+        # NOTE: Rounding might end up slightly outside of the bounds, as might the bounds
+        # themselves with the precision of `x`
+        return x.type(dtype).clip(self.lower, self.upper).type(dtype)
 
     def cast(self, x: Tensor, frm: Domain, *, dtype: torch.dtype | None = None) -> Tensor:
         """Cast a tensor of values frm the domain `frm` to this domain.
-- 
2.43.0


From a99c13e9fc77c75b811d315bc4f75503169bd005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:56 +0000
Subject: [PATCH 61/81] fix: cost-aware Bayesian optimization failed if a cost
 was not positive or infinite

Nothing prevents the model of the costs from predicting a negative cost either, if it
is not used on a log scale.
---
 .../acquisition_functions/cost_cooling.py                 | 7 +++++--
 neps/optimizers/bayesian_optimization/models/gp.py        | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py b/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
index 4095d6f..a827601 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
@@ -21,9 +21,10 @@ def apply_cost_cooling(
     acq: AcquisitionFunction,
     cost_model: GPyTorchModel,
     alpha: float,
+    min_cost: float,
 ) -> Tensor:
-    # NOTE: We expect **positive** costs from model
-    cost = cost_model.posterior(X).mean
+    # NOTE: We expect **positive** costs, but the model might predict others
+    cost = cost_model.posterior(X).mean.clamp_min(min_cost)
     cost = cost.squeeze(dim=-1) if cost_model.num_outputs == 1 else cost.sum(dim=-1)
 
     if acq._log:
@@ -42,6 +43,7 @@ def cost_cooled_acq(
     acq_fn: AcquisitionFunction,
     model: GPyTorchModel,
     used_budget_percentage: float,
+    min_cost: float = 1e-12,
 ) -> WeightedAcquisition:
     assert 0 <= used_budget_percentage <= 1
     return WeightedAcquisition(
@@ -50,5 +52,6 @@ def cost_cooled_acq(
             apply_cost_cooling,
             cost_model=model,
             alpha=1 - used_budget_percentage,
+            min_cost=min_cost,
         ),
     )
diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 7542316..711827c 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -367,7 +367,7 @@ def fit_and_acquire_from_gp(
             )
 
         # We simply ignore missing costs when training the cost GP.
-        missing_costs = torch.isnan(costs)
+        missing_costs = ~torch.isfinite(costs)
         if missing_costs.all():
             raise ValueError(
                 "Must have at least some configurations reported with a cost"
@@ -382,6 +382,11 @@ def fit_and_acquire_from_gp(
             x_train_cost = x_train
             y_train_cost = costs
 
+        # NOTE: The logarithm is taken of the costs, they need to be positive
+        positive_costs = y_train_cost[y_train_cost > 0]
+        min_cost = positive_costs.min().item() if len(positive_costs) > 0 else 1.0
+        y_train_cost = y_train_cost.clamp_min(min_cost)
+
         if costs_on_log_scale:
             transform = ChainedOutcomeTransform(
                 log=Log(),
@@ -403,6 +408,7 @@ def fit_and_acquire_from_gp(
             acq_fn=acquisition,
             model=cost_gp,
             used_budget_percentage=cost_percentage_used,
+            min_cost=min_cost,
         )
 
     _n = n_candidates_required if n_candidates_required is not None else 1
-- 
2.43.0


From 6c2c1f76e631d76186942b8b0b0a0a8760000f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:39 +0000
Subject: [PATCH 62/81] fix: Bayesian optimization with priors and costs failed
 while trials are in progress

---
 .../acquisition_functions/weighted_acquisition.py  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py b/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
index fd23d33..07f3409 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
@@ -121,8 +121,18 @@ class WeightedAcquisition(AcquisitionFunction):
             acq.set_X_pending(None)
             self.set_X_pending(None)
 
-        self.apply_weight = apply_weight
-        self.acq = acq
+        # NOTE: If already weighted, the weights need to be applied together, before the
+        # `q` dimension (i.e. the candidate and the pending points) gets reduced
+        if isinstance(acq, WeightedAcquisition):
+            inner_weight = acq.apply_weight
+            self.apply_weight = lambda acq_values, X, base_acq: apply_weight(
+                inner_weight(acq_values, X, base_acq), X, base_acq
+            )
+            self.acq = acq.acq
+        else:
+            self.apply_weight = apply_weight
+            self.acq = acq
+
         self._log = acq._log
 
     # Taken from PiBO implementation in botorch (PriorGuidedAcquisitionFunction).
-- 
2.43.0


From a6dcf4d590b6bdf945dd6934f5e055ad32a9d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:59 +0000
Subject: [PATCH 63/81] fix: the log prior of an architecture could not be
 computed

---
 neps/search_spaces/architecture/cfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/architecture/cfg.py b/neps/search_spaces/architecture/cfg.py
index 280c006..44df331 100644
--- a/neps/search_spaces/architecture/cfg.py
+++ b/neps/search_spaces/architecture/cfg.py
@@ -164,7 +164,7 @@ class Grammar(CFG):
 
                 idx = self.productions(lhs=lhs_production).index(production)
                 if log:
-                    prior_prob += np.log(self.prior[(lhs_production)][idx] + 1e-15)
+                    prior_prob += np.log(self.prior[str(lhs_production)][idx] + 1e-15)
                 else:
                     prior_prob *= self.prior[str(lhs_production)][idx]
                 i += 1
-- 
2.43.0


From d0624967fa88067ed56e5d275a889cc85d7a9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 64/81] fix: mutation and crossover of architectures failed if
 there is only one subtree to choose

---
 neps/search_spaces/architecture/cfg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/architecture/cfg.py b/neps/search_spaces/architecture/cfg.py
index 44df331..2c86e45 100644
--- a/neps/search_spaces/architecture/cfg.py
+++ b/neps/search_spaces/architecture/cfg.py
@@ -254,7 +254,8 @@ class Grammar(CFG):
             # sample subtree from donor
             donor_subtree_index = self.rand_subtree_fixed_head(parent2, subtree_node)
             # if no subtrees with right head node return False
-            if not donor_subtree_index:
+            # (the index of the root node is 0)
+            if donor_subtree_index is False:
                 _patience -= 1
             else:
                 donor_pre, donor_sub, donor_post = self.remove_subtree(
@@ -295,7 +296,11 @@ class Grammar(CFG):
             for i in range(len(split_tree))
             if split_tree[i][1:] in self.swappable_nonterminals
         ]
-        r = np.random.randint(1, len(swappable_indices))
+        r = (
+            np.random.randint(1, len(swappable_indices))
+            if len(swappable_indices) > 1
+            else 0
+        )
         chosen_non_terminal = split_tree[swappable_indices[r]][1:]
         chosen_non_terminal_index = swappable_indices[r]
         return chosen_non_terminal, chosen_non_terminal_index
-- 
2.43.0


From f57358a6e9de4496b08f8698f565c214d9b5b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:19 +0000
Subject: [PATCH 65/81] fix: neps info-config failed for a trial which is not
 evaluated yet

---
 neps/utils/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index b504bf5..869f5d0 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -308,13 +308,17 @@ def sample_config(args: argparse.Namespace) -> None:
     pass
 
 
-def convert_timestamp(timestamp: float) -> str:
+def convert_timestamp(timestamp: float | None) -> str:
     """Convert a UNIX timestamp to a human-readable datetime string."""
+    if timestamp is None:
+        return "N/A"
     return datetime.fromtimestamp(timestamp).strftime("%Y-%m-%d %H:%M:%S")
 
 
-def format_duration(seconds: float) -> str:
+def format_duration(seconds: float | None) -> str:
     """Convert duration in seconds to a h:min:sec format."""
+    if seconds is None:
+        return "N/A"
     duration = str(timedelta(seconds=seconds))
     # Remove milliseconds for alignment
     if "." in duration:
-- 
2.43.0


From 6ffc2fd4e4509f89c6d637665069b2fa7dda2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:19 +0000
Subject: [PATCH 66/81] fix: neps results failed for trials of multi-fidelity
 searchers

---
 neps/utils/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index 869f5d0..8633954 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -541,8 +541,8 @@ def results(args: argparse.Namespace) -> None:
         return
 
     trials = neps_state.get_all_trials()
-    # Sort trials by trial ID
-    sorted_trials = sorted(trials.values(), key=lambda x: int(x.id))
+    # Sort trials in the order they were sampled, ids are not always integers
+    sorted_trials = sorted(trials.values(), key=lambda x: x.metadata.time_sampled)
 
     # Compute incumbents
     best_loss = float("inf")
-- 
2.43.0


From b492e9b53cce528c996a83a9ea4ae6c4a9f00d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:19 +0000
Subject: [PATCH 67/81] fix: neps results failed on crashed trials or showed
 them as incumbents

---
 neps/utils/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index 8633954..9226cb3 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -548,7 +548,10 @@ def results(args: argparse.Namespace) -> None:
     best_loss = float("inf")
     incumbents = []
     for trial in sorted_trials:
-        if trial.report and trial.report.loss < best_loss:
+        # Crashed trials may have no loss, or the value set for errors
+        if trial.state != Trial.State.SUCCESS:
+            continue
+        if trial.report.loss < best_loss:
             best_loss = trial.report.loss
             incumbents.append(trial)
 
-- 
2.43.0


From c473c3571c91b1f0b951c9e5aff72d63730f0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:20 +0000
Subject: [PATCH 68/81] fix: casting a log domain to the domain of its
 logarithms gave exponentials

---
 neps/search_spaces/domain.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 23adc3f..b1e0095 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -337,11 +337,12 @@ class Domain(Generic[V]):
         # We can also shortcut out if the only diffrence is that we are coming frm the
         # log bounds of this domain. We dont care if where we came from was binned or not,
         # we just lift it up with `np.exp` and round if needed
-        if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
+        if self.log_bounds == (frm.lower, frm.upper) and (
+            frm.log_bounds is None and self.cardinality is None
+        ):
             x = torch.exp(x)
-            if self.round:
-                x = torch.round(x)
-            return x.type(dtype)
+            # NOTE: Rounding might end up slightly outside of the bounds
+            return x.type(dtype).clip(self.lower, self.upper)
 
         # Otherwise, through the unit interval we go
         lift = self.from_unit(frm.to_unit(x), dtype=dtype)
-- 
2.43.0


From e1594be251857469f124bce0a6904f2d76022926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 69/81] fix: searchers were given the limits of the first call
 of a run only

Raising the maximum cost or number of evaluations in a later call did not
change the budget given to the searcher.
---
 neps/runtime.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 8ceed41..8e2c863 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -532,6 +532,17 @@ def _launch_runtime(  # noqa: PLR0913
         ),
     )
 
+    # The limits may have changed since the state was created.
+    with neps_state._optimizer_state.acquire() as (opt_state, put_opt_state):
+        if (budget := opt_state.budget) is not None:
+            limits = (budget.max_cost_budget, budget.max_evaluations)
+            if max_cost_total is not None:
+                budget.max_cost_budget = max_cost_total
+            if max_evaluations_total is not None:
+                budget.max_evaluations = max_evaluations_total
+            if limits != (budget.max_cost_budget, budget.max_evaluations):
+                put_opt_state(opt_state)
+
     settings = WorkerSettings(
         on_error=(
             OnErrorPossibilities.IGNORE
-- 
2.43.0


From e2f4fa6c72d6dc3d3e68911edc8ba214ece0d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 70/81] fix: the number of used evaluations given to searchers
 stayed zero

---
 neps/state/neps_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index f76c7e6..a2bdb86 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -172,6 +172,7 @@ class NePSState(Generic[Loc]):
             if opt_state.budget is not None:
                 budget_info = opt_state.budget
 
+                budget_info.used_evaluations += 1
                 if report.cost is not None:
                     budget_info.used_cost_budget += report.cost
             put_opt_state(opt_state)
-- 
2.43.0


From f4279a9eb3035612dac81f773831988a8d401dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 71/81] fix: tblogger split curves and mixed up trials and runs

---
 neps/plot/tensorboard_eval.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 380ad6b..076af48 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -97,13 +97,21 @@ class tblogger:  # noqa: N801
         root_dir = Path(neps_state.location)
         assert root_dir.exists()
 
-        tblogger.config_working_directory = Path(trial.metadata.location)
+        working_directory = Path(trial.metadata.location)
+        if tblogger.config_working_directory != working_directory:
+            # NOTE: The end of an interrupted trial is not notified, its writer may
+            # still be open.
+            tblogger._close_config_writer()
+
+        tblogger.config_working_directory = working_directory
         tblogger.config_previous_directory = (
             Path(trial.metadata.previous_trial_location)
             if trial.metadata.previous_trial_location is not None
             else None
         )
-        tblogger.config_id = trial.metadata.id
+        if not tblogger._is_initialized():
+            # Once initialized, it is the id all of the config is logged under
+            tblogger.config_id = trial.metadata.id
         tblogger.optimizer_dir = root_dir
         tblogger.config = trial.config
 
@@ -142,17 +150,23 @@ class tblogger:  # noqa: N801
             )
 
     @staticmethod
-    def end_of_config(trial: Trial) -> None:  # noqa: ARG004
+    def end_of_config(trial: Trial) -> None:
         """Closes the writer."""
+        tblogger._close_config_writer()
+
+        # NOTE: The trial may have logged nothing, what is kept is that of another one then
+        is_logged = tblogger.config_working_directory == Path(trial.metadata.location)
+        if tblogger.write_incumbent and is_logged:
+            tblogger._tracking_incumbent_api()
+
+    @staticmethod
+    def _close_config_writer() -> None:
         if tblogger.config_writer:
             # Close and reset previous config writers for consistent logging.
             # Prevent conflicts by reinitializing writers when logging ongoing.
             tblogger.config_writer.close()
             tblogger.config_writer = None
 
-        if tblogger.write_incumbent:
-            tblogger._tracking_incumbent_api()
-
     @staticmethod
     def _make_grid(images: torch.Tensor, nrow: int, padding: int = 2) -> torch.Tensor:
         """Create a grid of images from a batch of images.
@@ -442,6 +456,7 @@ class tblogger:  # noqa: N801
 
         tblogger.summary_writer.flush()
         tblogger.summary_writer.close()
+        tblogger.summary_writer = None
 
     @staticmethod
     def disable() -> None:
-- 
2.43.0


From e5e887c8dd8647c6f48d2a2e795748e79bdecc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 72/81] fix: plotting failed on crashed evaluations, NaN losses
 hid all that followed

---
 neps/plot/read_results.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 06ff3f1..3d12b9e 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import errno
 from collections import OrderedDict
 from pathlib import Path
 
@@ -23,24 +24,28 @@ def process_seed(
     if seed is not None:
         path = path / str(seed) / "neps_root_directory"
 
-    stats, _ = neps.status(path, print_summary=False)
+    all_stats, _ = neps.status(path, print_summary=False)
+
+    # NOTE: Crashed evaluations have no loss and no info
+    stats = {id_: s for id_, s in all_stats.items() if s.result != "error"}
+    if len(stats) == 0:
+        raise FileNotFoundError(errno.ENOENT, "No evaluation to plot", str(path))
+
     sorted_stats = sorted(sorted(stats.items()), key=lambda x: len(x[0]))
     stats = OrderedDict(sorted_stats)
 
     # max_cost only relevant for scaling x-axis when using fidelity on the x-axis
     max_cost: float = -1.0
     if key_to_extract == "fidelity":
-        # TODO(eddiebergman): This can crash for a number of reasons, namely if the config
-        # crased and it's result is an error, or if the `"info_dict"` and/or
-        # `key_to_extract` doesn't exist
+        # TODO(eddiebergman): This can crash if the `"info_dict"` and/or `key_to_extract`
+        # doesn't exist
         max_cost = max(s.result["info_dict"][key_to_extract] for s in stats.values())  # type: ignore
 
     global_start = stats[min(stats.keys())].metadata["time_sampled"]
 
     def get_cost(idx: str) -> float:
         if key_to_extract is not None:
-            # TODO(eddiebergman): This can crash for a number of reasons, namely if the
-            # config crased and it's result is an error, or if the `"info_dict"` and/or
+            # TODO(eddiebergman): This can crash if the `"info_dict"` and/or
             # `key_to_extract` doesn't exist
             return float(stats[idx].result["info_dict"][key_to_extract])  # type: ignore
 
@@ -62,9 +67,7 @@ def process_seed(
             else:
                 config_cost = config_result.metadata["time_end"] - global_start
 
-        # TODO(eddiebergman): Assumes it never crashed and there's a loss available,
-        # not fixing now but it should be addressed
         losses.append(config_result.result["loss"])  # type: ignore
         costs.append(config_cost)
 
-    return list(np.minimum.accumulate(losses)), costs, max_cost
+    return list(np.fmin.accumulate(losses)), costs, max_cost
-- 
2.43.0


From e3639b0e2668b356cf020a6407dd6a00de23402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 73/81] fix: plots never considered continuations

---
 neps/plot/read_results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 3d12b9e..29adeb0 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -61,9 +61,9 @@ def process_seed(
                 # calculates continuation costs for MF algorithms NOTE: assumes that
                 # all recorded evaluations are black-box evaluations where
                 # continuations or freeze-thaw was not accounted for during optimization
-                if "previous_config_id" in config_result.metadata:
-                    previous_config_id = config_result.metadata["previous_config_id"]
-                    config_cost -= get_cost(previous_config_id)
+                previous_trial_id = config_result.metadata["previous_trial_id"]
+                if previous_trial_id in stats:
+                    config_cost -= get_cost(previous_trial_id)
             else:
                 config_cost = config_result.metadata["time_end"] - global_start
 
-- 
2.43.0


From 1173ad521ecd24c8c4fed41764d40156d475f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 74/81] fix: plots showed evaluations in the order of their ids
 as text

---
 neps/plot/read_results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 29adeb0..63bb23f 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -31,8 +31,8 @@ def process_seed(
     if len(stats) == 0:
         raise FileNotFoundError(errno.ENOENT, "No evaluation to plot", str(path))
 
-    sorted_stats = sorted(sorted(stats.items()), key=lambda x: len(x[0]))
-    stats = OrderedDict(sorted_stats)
+    # In the order in which they finished
+    stats = OrderedDict(sorted(stats.items(), key=lambda x: x[1].metadata["time_end"]))
 
     # max_cost only relevant for scaling x-axis when using fidelity on the x-axis
     max_cost: float = -1.0
-- 
2.43.0


From 8875730ffcbd59c6b9b8a11d52a5ab6ecb8f4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 75/81] fix: plots of several workers accumulated the times
 since the start

---
 neps/plot/read_results.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 63bb23f..06e3b25 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -41,7 +41,7 @@ def process_seed(
         # doesn't exist
         max_cost = max(s.result["info_dict"][key_to_extract] for s in stats.values())  # type: ignore
 
-    global_start = stats[min(stats.keys())].metadata["time_sampled"]
+    last_end = min(result.metadata["time_sampled"] for result in all_stats.values())
 
     def get_cost(idx: str) -> float:
         if key_to_extract is not None:
@@ -65,7 +65,9 @@ def process_seed(
                 if previous_trial_id in stats:
                     config_cost -= get_cost(previous_trial_id)
             else:
-                config_cost = config_result.metadata["time_end"] - global_start
+                # The costs are accumulated for plotting
+                config_cost = config_result.metadata["time_end"] - last_end
+                last_end = config_result.metadata["time_end"]
 
         losses.append(config_result.result["loss"])  # type: ignore
         costs.append(config_cost)
-- 
2.43.0


From 21ca4e0a1e009adad9ca4ac43b5d29cf6bed96d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 76/81] fix: plotting failed if seeds had different numbers of
 evaluations or costs of zero

---
 neps/plot/plotting.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/neps/plot/plotting.py b/neps/plot/plotting.py
index e0cc2ea..b98f763 100644
--- a/neps/plot/plotting.py
+++ b/neps/plot/plotting.py
@@ -122,15 +122,13 @@ def _interpolate_time(
     x_range: tuple | None = None,
     scale_x: float | None = None,
 ) -> pd.DataFrame:
-    if isinstance(incumbents, list):
-        incumbents = np.array(incumbents)
-    if isinstance(costs, list):
-        costs = np.array(costs)
-
+    # NOTE: The seeds may have different numbers of evaluations
     df_dict = {}
 
     for i, _ in enumerate(incumbents):
         _seed_info = pd.Series(incumbents[i], index=np.cumsum(costs[i]))
+        # Evaluations may cost nothing, only the last one at a time is of interest
+        _seed_info = _seed_info[~_seed_info.index.duplicated(keep="last")]
         df_dict[f"seed{i}"] = _seed_info
     df = pd.DataFrame.from_dict(df_dict)
 
-- 
2.43.0


From d1f38eb947c36d76c727a13ce41a898d301f28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 77/81] fix: plots showed losses before they were reached

---
 neps/plot/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/plot/plotting.py b/neps/plot/plotting.py
index b98f763..019d664 100644
--- a/neps/plot/plotting.py
+++ b/neps/plot/plotting.py
@@ -146,7 +146,8 @@ def _interpolate_time(
         _df.index = [max_b]
         df = pd.concat((df, _df)).sort_index()
 
-    df = df.fillna(method="backfill", axis=0).fillna(method="ffill", axis=0)
+    # NOTE: The best value so far stays until it is improved on
+    df = df.ffill(axis=0).bfill(axis=0)
     if x_range is not None:
         df = df.query(f"{x_range[0]} <= index <= {x_range[1]}")
 
@@ -159,7 +160,7 @@ def _df_to_x_range(df: pd.DataFrame, x_range: tuple | None = None) -> pd.DataFra
     _df = pd.DataFrame.from_dict(new_entry, orient="index").T
     _df.index = [x_max]
     df = pd.concat((df, _df)).sort_index()
-    return df.fillna(method="backfill", axis=0).fillna(method="ffill", axis=0)
+    return df.ffill(axis=0).bfill(axis=0)
 
 
 def _set_legend(
-- 
2.43.0


From 823e00d04e2009879ebf5f132368070644b2f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 78/81] fix: the prior confidence asked of a searcher did not
 apply to integers

---
 neps/optimizers/multi_fidelity/successive_halving.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 977a6c9..732ba01 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -481,7 +481,10 @@ class SuccessiveHalvingBase(BaseOptimizer):
                     confidence = CUSTOM_FLOAT_CONFIDENCE_SCORES[self.prior_confidence]
                 else:
                     confidence = confidence_score["numeric"]
-                self.pipeline_space[k].default_confidence_score = confidence
+                v.default_confidence_score = confidence
+                if isinstance(v, IntegerParameter):
+                    # integers are sampled through their float
+                    v.float_hp.default_confidence_score = confidence
             elif isinstance(v, CategoricalParameter):
                 if confidence_score is None:
                     confidence = CUSTOM_CATEGORICAL_CONFIDENCE_SCORES[
-- 
2.43.0


From 457a89899f5863165445a1ad96747832f74dfd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 79/81] fix: priors treated categoricals as ordered numbers

---
 neps/sampling/priors.py                           | 10 +++++++---
 neps/search_spaces/hyperparameters/categorical.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index 1f36f1a..62b26e0 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -135,9 +135,13 @@ class Prior(Sampler, Protocol):
 
             confidence_str = hp.default_confidence_choice
             confidence_score = _mapping[confidence_str]
-            center = (
-                hp._default_index if isinstance(hp, CategoricalParameter) else hp.default
-            )
+            center: int | float = hp.default
+            if isinstance(hp, CategoricalParameter):
+                # NOTE: The share of the default, as when sampling from the space. A
+                # fixed one may be less than that of each other choice.
+                center = hp._default_index
+                confidence_score = hp._compute_user_prior_probabilities()[center]
+
             centers.append((center, confidence_score))
 
         return Prior.make_centered(domains=domains, centers=centers)
diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index 7c94a02..d121528 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -104,7 +104,7 @@ class CategoricalParameter(
         self._default_index: int | None = (
             self.choices.index(default) if default is not None else None
         )
-        self.domain = Domain.indices(len(self.choices))
+        self.domain = Domain.indices(len(self.choices), is_categorical=True)
 
     @override
     def clone(self) -> Self:
-- 
2.43.0


From cd9a86d6297a08018d65da641f693a007ec12169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 80/81] fix: with infinite losses, PriorBand took
 configurations not yet evaluated for the incumbent

---
 neps/optimizers/multi_fidelity_prior/priorband.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index b621ea0..a9e44c0 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -89,7 +89,10 @@ class PriorBandBase:
         if len(idxs):
             # finding the config with the lowest recorded performance
             _perfs = self.observed_configs.loc[idxs].perf.values
-            inc_idx = np.nanargmin([np.nan if t is None else t for t in _perfs])
+            _perfs = np.array([np.nan if t is None else t for t in _perfs], dtype=float)
+            # NOTE: `np.nanargmin` takes NaN for infinity, which losses might be
+            evaluated = np.flatnonzero(~np.isnan(_perfs))
+            inc_idx = evaluated[np.argmin(_perfs[evaluated])]
             inc = self.observed_configs.loc[idxs].iloc[inc_idx].config
             assert isinstance(inc, SearchSpace)
         else:
-- 
2.43.0


From a458bfb2665aa743581f4124cfef368741681213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 81/81] fix: the configuration of a searcher is that of its own
 name, not of another one that begins with it

---
 neps/optimizers/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/info.py b/neps/optimizers/info.py
index b2494c2..06e6505 100644
--- a/neps/optimizers/info.py
+++ b/neps/optimizers/info.py
@@ -92,7 +92,7 @@ class SearcherConfigs:
         folder_path = SearcherConfigs._get_searchers_folder_path()
 
         for file in folder_path.iterdir():
-            if file.suffix == ".yaml" and file.stem.startswith(searcher):
+            if file.suffix == ".yaml" and file.stem == searcher:
                 return file.read_text()
 
         raise FileNotFoundError(
-- 
2.43.0

