From 4e4b91853493dfa618275c0954fb36a4ea6a6baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 01/75] fix: creating the state in an existing empty directory,
 or concurrently with another worker, no longer fails

---
 neps/state/filebased.py | 54 +++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..fd1ec93 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -571,9 +571,8 @@ def create_or_load_filebased_neps_state(
     !!! warning
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
+        the one that is passed. If two processes try to create a NePSState at the
+        same time, both with different optimizer infos, one will fail
         to create the NePSState. This is a limitation of the current design.
 
         In principal, we could allow multiple optimizers to be run and share
@@ -590,7 +589,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -606,35 +604,33 @@ def create_or_load_filebased_neps_state(
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
     # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    # NOTE: Whichever worker gets the lock first writes the info, all others
+    # (now or in a later run) load and compare against it. We can not rely on the
+    # existence of `directory` to know if there is an info to compare to, as it may have
+    # been created by the user or by another worker that has not written its info yet.
+    shared_optimizer_info = Synced.new_or_load(
+        data=optimizer_info,
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = shared_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=shared_optimizer_info,  # type: ignore
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From 3efee25e133dd870fcdffecad119c42e5c5d53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 02/75] fix: a worker that loses its first claim to another
 worker carries on instead of dying with UnboundLocalError

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From 8c49f0166230262abbe04fe757942c880cc899c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 03/75] fix: wait for the summary lock instead of failing when
 another worker is writing the summary

---
 neps/status/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..edc365d 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -299,7 +299,7 @@ def _save_data_to_csv(
         config_data_df: The DataFrame containing configuration data.
         run_data_df: The DataFrame containing additional run data.
     """
-    with locker(poll=2):
+    with locker(poll=2, timeout=120):
         try:
             pending_configs = run_data_df.loc["num_pending_configs", "value"]
             pending_configs_with_worker = run_data_df.loc[
-- 
2.43.0


From 80f67d94dfec39b1cd0e283208d4f8f7f582ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 04/75] fix: a trial exists for other workers only once it is
 completely written

---
 neps/state/filebased.py | 20 +++++++++++++++-----
 neps/state/protocols.py |  4 +++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index fd1ec93..395f0a1 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -87,16 +87,26 @@ class FileVersioner(Versioner):
 class TrialRepoInDirectory(TrialRepo[Path]):
     """A repository of Trials that are stored in a directory."""
 
+    VERSION_FILENAME: ClassVar = ".version"
+
     directory: Path
     _cache: dict[str, Synced[Trial, Path]] = field(default_factory=dict)
 
     @override
     def all_trial_ids(self) -> set[str]:
-        """List all the trial ids in this trial Repo."""
+        """List all the trial ids in this trial Repo.
+
+        !!! note
+
+            A trial only exists once it has a version. A directory without one belongs
+            to a trial that another worker is still in the middle of creating, or whose
+            creation was interrupted.
+        """
         return {
             config_path.name.replace("config_", "")
             for config_path in self.directory.iterdir()
-            if config_path.name.startswith("config_") and config_path.is_dir()
+            if config_path.name.startswith("config_")
+            and (config_path / self.VERSION_FILENAME).exists()
         }
 
     @override
@@ -139,7 +149,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 poll=lock_poll,
                 timeout=lock_timeout,
             ),
-            versioner=FileVersioner(version_file=config_path / ".version"),
+            versioner=FileVersioner(version_file=config_path / self.VERSION_FILENAME),
             reader_writer=ReaderWriterTrial(),
         )
         self._cache[trial_id] = trial
@@ -168,7 +178,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 repository.
         """
         config_path = self.directory.absolute().resolve() / f"config_{trial.metadata.id}"
-        if config_path.exists():
+        if (config_path / self.VERSION_FILENAME).exists():
             raise TrialRepo.TrialAlreadyExistsError(
                 f"Trial '{trial.metadata.id}' already exists as '{config_path}'."
             )
@@ -184,7 +194,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 poll=lock_poll,
                 timeout=lock_timeout,
             ),
-            versioner=FileVersioner(version_file=config_path / ".version"),
+            versioner=FileVersioner(version_file=config_path / self.VERSION_FILENAME),
             reader_writer=ReaderWriterTrial(),
         )
         self._cache[trial.metadata.id] = shared_trial
diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index 51bff7d..e6b0893 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -198,8 +198,10 @@ class VersionedResource(Generic[T, K]):
                 f" with version '{current_version}'"
             )
 
-        version = versioner.bump()
+        # NOTE: The version marks the resource as existing, hence the data has to be
+        # there first, otherwise being interrupted here leaves an unreadable resource.
         reader_writer.write(data, location)
+        version = versioner.bump()
         return VersionedResource(
             _current=data,
             _location=location,
-- 
2.43.0


From a60d5bbac44c20ea16d31d36826c163147c3e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 05/75] fix: do not hand out a trial as pending that another
 worker has started in the meantime

---
 neps/state/neps_state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..796bce5 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,12 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Some other worker may have started to evaluate the trial in between it
+        # being listed as pending and us syncing it here.
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From fa1ed92086311c44612f0d4cd85d72f0fad90c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:17 +0000
Subject: [PATCH 06/75] fix: status reports running and pending configurations,
 and the summary csv copes with crashed evaluations and is never older than
 the last writer

---
 neps/status/status.py | 97 +++++++++++++------------------------------
 1 file changed, 29 insertions(+), 68 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index edc365d..9a26f12 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.state == Trial.State.EVALUATING and trial.report is None
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
@@ -223,7 +223,9 @@ def _get_dataframes_from_summary(
         if include_configs:
             config_data_prev.append(config_result_prev.config)
         if include_results:
-            result_data_prev.append(config_result_prev.result)
+            # A crashed evaluation has no result to show
+            result = config_result_prev.result
+            result_data_prev.append(result if result != "error" else {"loss": None})
         if include_metadatas:
             metadata_data_prev.append(config_result_prev.metadata)
 
@@ -282,69 +284,26 @@ def _get_dataframes_from_summary(
 def _save_data_to_csv(
     config_data_file_path: Path,
     run_data_file_path: Path,
-    locker: Locker,
     config_data_df: pd.DataFrame,
     run_data_df: pd.DataFrame,
 ) -> None:
-    """Save data as a CSV while acquiring a lock for data integrity.
+    """Save data as a CSV, ordered by ascending loss.
 
-    This function saves data to CSV files while acquiring a lock to prevent concurrent
-    writes. If the lock is acquired, it writes the data to the CSV files and releases the
-    lock.
+    The lock for the files has to be held by the caller.
 
     Args:
         config_data_file_path: The path to the CSV file for configuration data.
         run_data_file_path: The path to the CSV file for additional run data.
-        locker: An object for acquiring and releasing a lock to ensure data integrity.
         config_data_df: The DataFrame containing configuration data.
         run_data_df: The DataFrame containing additional run data.
     """
-    with locker(poll=2, timeout=120):
-        try:
-            pending_configs = run_data_df.loc["num_pending_configs", "value"]
-            pending_configs_with_worker = run_data_df.loc[
-                "num_pending_configs_with_worker",
-                "value",
-            ]
-            # Represents the last worker
-            if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-
-            if run_data_file_path.exists():
-                prev_run_data_df = pd.read_csv(run_data_file_path)
-                prev_run_data_df = prev_run_data_df.set_index("description")
-
-                num_evaluated_configs_csv = prev_run_data_df.loc[
-                    "num_evaluated_configs",
-                    "value",
-                ]
-                num_evaluated_configs_run = run_data_df.loc[
-                    run_data_df.index == "num_evaluated_configs",
-                    "value",
-                ]
-                # check if the current worker has more evaluated configs than the previous
-                if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
-                    config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                    run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-            # Represents the first worker to be evaluated
-            else:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-        except Exception as e:
-            raise RuntimeError(f"Error during data saving: {e}") from e
+    try:
+        if "result.loss" in config_data_df.columns:
+            config_data_df = config_data_df.sort_values(by="result.loss", ascending=True)
+        config_data_df.to_csv(config_data_file_path, index=False, mode="w")
+        run_data_df.to_csv(run_data_file_path, index=True, mode="w")
+    except Exception as e:
+        raise RuntimeError(f"Error during data saving: {e}") from e
 
 
 def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
@@ -360,18 +319,20 @@ def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
     csv_config_data = Path(csv_config_data).absolute().resolve()
     csv_rundata = Path(csv_rundata).absolute().resolve()
 
-    df_config_data, df_run_data = _get_dataframes_from_summary(
-        root_directory,
-        include_metadatas=True,
-        include_results=True,
-        include_configs=True,
-    )
+    # NOTE: The data is read while holding the lock, so that the last worker to write
+    # the files is also the one with the latest data.
+    with csv_locker(poll=2, timeout=120):
+        df_config_data, df_run_data = _get_dataframes_from_summary(
+            root_directory,
+            include_metadatas=True,
+            include_results=True,
+            include_configs=True,
+        )
 
-    _save_data_to_csv(
-        csv_config_data,
-        csv_rundata,
-        csv_locker,
-        df_config_data,
-        df_run_data,
-    )
+        _save_data_to_csv(
+            csv_config_data,
+            csv_rundata,
+            df_config_data,
+            df_run_data,
+        )
     return csv_config_data, csv_rundata
-- 
2.43.0


From 1fe27e34b305bb27caa187a4b6932702c5c5c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 07/75] fix: a process that dies while writing a file of the
 state no longer leaves it empty or partially written

---
 neps/state/filebased.py | 25 ++++++++++++++++---------
 neps/utils/files.py     | 25 ++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 395f0a1..b4485bd 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,7 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, serialize
+from neps.utils.files import atomic_write, deserialize, serialize
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -79,7 +79,8 @@ class FileVersioner(Versioner):
     @override
     def bump(self) -> str:
         sha = make_sha()
-        self.version_file.write_text(sha)
+        with atomic_write(self.version_file) as tmp_path:
+            tmp_path.write_text(sha)
         return sha
 
 
@@ -256,11 +257,13 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        state_path.write_text(trial.state.value, encoding="utf-8")
+        with atomic_write(state_path) as tmp_path:
+            tmp_path.write_text(trial.state.value, encoding="utf-8")
 
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
-            previous_trial_path.write_text(trial.metadata.previous_trial_id)
+            with atomic_write(previous_trial_path) as tmp_path:
+                tmp_path.write_text(trial.metadata.previous_trial_id)
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
@@ -339,7 +342,8 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
 
         py_rng_version, py_rng_state, py_guass_next = snapshot.py_rng
 
-        np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(py_rng_path)
+        with atomic_write(py_rng_path) as tmp_path:
+            np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(tmp_path)
 
         seed_info = {
             "np_rng_kind": snapshot.np_rng[0],
@@ -351,17 +355,20 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
         }
         serialize(seed_info, seedinfo_path)
         np_rng_state = snapshot.np_rng[1]
-        np_rng_state.tofile(np_rng_path)
+        with atomic_write(np_rng_path) as tmp_path:
+            np_rng_state.tofile(tmp_path)
 
         if snapshot.torch_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_rng, torch_rng_path)
+            with atomic_write(torch_rng_path) as tmp_path:
+                torch.save(snapshot.torch_rng, tmp_path)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_cuda_rng, torch_cuda_rng_path)
+            with atomic_write(torch_cuda_rng_path) as tmp_path:
+                torch.save(snapshot.torch_cuda_rng, tmp_path)
 
 
 @dataclass
@@ -429,7 +436,7 @@ class ReaderWriterErrDump(ReaderWriter[ErrDump, Path]):
     @override
     def write(self, err_dump: ErrDump, directory: Path) -> None:
         errors_path = directory / f"{self.name}-errors.jsonl"
-        with errors_path.open("w") as f:
+        with atomic_write(errors_path) as tmp_path, tmp_path.open("w") as f:
             lines = [json.dumps(asdict(trial_err)) for trial_err in err_dump.errs]
             f.write("\n".join(lines))
 
diff --git a/neps/utils/files.py b/neps/utils/files.py
index 95eb4ee..5fcbef6 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -3,7 +3,9 @@
 from __future__ import annotations
 
 import dataclasses
-from collections.abc import Iterable, Mapping
+import os
+from collections.abc import Iterable, Iterator, Mapping
+from contextlib import contextmanager
 from enum import Enum
 from pathlib import Path
 from typing import Any
@@ -11,6 +13,24 @@ from typing import Any
 import yaml
 
 
+@contextmanager
+def atomic_write(path: Path | str) -> Iterator[Path]:
+    """Write a file such that it is never seen partially written.
+
+    Yields a temporary path next to `path` to write to. It replaces `path` once
+    everything was written. If writing fails or the process dies in the middle of it,
+    `path` is left as it was.
+    """
+    path = Path(path)
+    tmp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        yield tmp_path
+        os.replace(tmp_path, path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     """Format data to be serializable."""
     if hasattr(data, "serialize"):
@@ -44,8 +64,7 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
 def serialize(data: Any, path: Path | str, *, sort_keys: bool = True) -> None:
     """Serialize data to a yaml file."""
     data = serializable_format(data)
-    path = Path(path)
-    with path.open("w") as file_stream:
+    with atomic_write(path) as tmp_path, tmp_path.open("w") as file_stream:
         try:
             return yaml.safe_dump(data, file_stream, sort_keys=sort_keys)
         except yaml.representer.RepresenterError as e:
-- 
2.43.0


From eccab64333613d1285ca131af5b3afffe6c80fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:35 +0000
Subject: [PATCH 08/75] fix: a trial is never stored as completed without its
 report

---
 neps/state/filebased.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index b4485bd..81359c9 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -257,8 +257,6 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        with atomic_write(state_path) as tmp_path:
-            tmp_path.write_text(trial.state.value, encoding="utf-8")
 
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
@@ -269,6 +267,11 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
             report_path = directory / cls.REPORT_FILENAME
             serialize(asdict(trial.report), report_path)
 
+        # NOTE: Written last, so that a trial is never in a completed state without
+        # having its report, even if interrupted in between.
+        with atomic_write(state_path) as tmp_path:
+            tmp_path.write_text(trial.state.value, encoding="utf-8")
+
 
 @dataclass
 class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
-- 
2.43.0


From 4357e2a4fbaceb9f36eb8e7282b6ee209baf8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:21 +0000
Subject: [PATCH 09/75] fix: casting to the log bounds of a domain no longer
 exponentiates the values a second time

---
 neps/search_spaces/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d7260c0..2813684 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -321,7 +321,7 @@ class Domain(Generic[V]):
         # We can also shortcut out if the only diffrence is that we are coming frm the
         # log bounds of this domain. We dont care if where we came from was binned or not,
         # we just lift it up with `np.exp` and round if needed
-        if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
+        if (frm.lower, frm.upper) == self.log_bounds and self.cardinality is None:
             x = torch.exp(x)
             if self.round:
                 x = torch.round(x)
-- 
2.43.0


From 525109a3f3d5a532dd6a78ef3377406c745e670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:21 +0000
Subject: [PATCH 10/75] fix: translating integer tensors to continuous domains
 no longer truncates the result

---
 neps/search_spaces/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 2813684..e4e69b2 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -391,7 +391,12 @@ class Domain(Generic[V]):
                 f" Expected {ndims} from last dimension of {x.shape=}, got {len(to)}."
             )
 
-        out = torch.empty_like(x, dtype=dtype)
+        # Values of a continuous domain do not fit into a tensor of integers
+        _dtype = dtype
+        if _dtype is None and not x.is_floating_point():
+            _dtype = None if all(t.is_int for t in to) else torch.float64
+
+        out = torch.empty_like(x, dtype=_dtype)
         for i, (f, t) in enumerate(zip(frm, to, strict=False)):
             out[..., i] = t.cast(x[..., i], frm=f, dtype=dtype)
 
-- 
2.43.0


From 77093ba82f9d7f11eb2d299ed2a8442c11a349d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:21 +0000
Subject: [PATCH 11/75] fix: integers on a log scale survive encoding and
 decoding, and end points stay inside their domain

---
 neps/search_spaces/domain.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index e4e69b2..38d3d62 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -242,11 +242,18 @@ class Domain(Generic[V]):
 
         x = (x - lower) / (upper - lower)
 
-        if q is not None:
+        if q is not None and not self._is_log_integer:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
 
-        return x.type(dtype)
+        # The endpoints must map to exactly 0 and 1, despite rounding errors
+        return x.type(dtype).clamp(0, 1)
+
+    @property
+    def _is_log_integer(self) -> bool:
+        # On a log scale, the integers are not equally spaced. Splitting the unit interval
+        # into equally sized bins would map several integers to the same bin.
+        return self.round and self.bins is None and self.log_bounds is not None
 
     def from_unit(self, x: Tensor, *, dtype: torch.dtype | None = None) -> Tensor:
         """Transform a tensor of values from the unit interval [0, 1] to this domain.
@@ -263,7 +270,7 @@ class Domain(Generic[V]):
             return x.to(dtype)
 
         q = self.cardinality
-        if q is not None:
+        if q is not None and not self._is_log_integer:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
             x = quantization_levels / (q - 1)
 
@@ -279,7 +286,11 @@ class Domain(Generic[V]):
         if self.round:
             x = torch.round(x)
 
-        return x.type(dtype)
+        x = x.type(dtype)
+        if dtype.is_floating_point or self.is_int:
+            # Rounding errors must not move the endpoints out of the domain
+            x = x.clamp(self.lower, self.upper)
+        return x
 
     def cast(self, x: Tensor, frm: Domain, *, dtype: torch.dtype | None = None) -> Tensor:
         """Cast a tensor of values frm the domain `frm` to this domain.
-- 
2.43.0


From 3fcb6cb4e43d3315d8f854430525834b6c88356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:04 +0000
Subject: [PATCH 12/75] fix: prior log probabilities with partial priors use
 the right columns, and samplers draw proper values for integer dtypes

---
 neps/sampling/priors.py   | 16 +++++++---------
 neps/sampling/samplers.py |  9 ++++-----
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index e4c6776..9a8a687 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -326,14 +326,10 @@ class CenteredPrior(Prior):
 
         # Calculate the log probabilities of the sample domain tensors under their
         # respective distributions.
-        itr = iter(zip(self._meaningful_ixs, self._meaningful_dists, strict=False))
-        first_i, first_dist = next(itr)
-        log_probs = first_dist.log_prob(translated_x[..., first_i])
-
-        _weight = 1 / len(self.distributions)
-
-        for i, dist in itr:
-            log_probs = log_probs + _weight * dist.log_prob(translated_x[..., i])
+        # NOTE: `translated_x` only has the columns of the meaningful distributions.
+        log_probs = torch.zeros(x.shape[:-1], dtype=torch.float64, device=x.device)
+        for col, dist in enumerate(self._meaningful_dists):
+            log_probs = log_probs + dist.log_prob(translated_x[..., col])
 
         return log_probs
 
@@ -357,7 +353,9 @@ class CenteredPrior(Prior):
         )
         _n = torch.Size((n,)) if isinstance(n, int) else n
 
-        out = torch.empty(_out_shape, device=device, dtype=dtype)
+        # Doesn't like integer dtypes, the samples are from the unit interval
+        _dtype = dtype if dtype is None or dtype.is_floating_point else torch.float64
+        out = torch.empty(_out_shape, device=device, dtype=_dtype)
         for i, dist in enumerate(self.distributions):
             out[..., i] = dist.distribution.sample(_n)
 
diff --git a/neps/sampling/samplers.py b/neps/sampling/samplers.py
index d343988..c39e115 100644
--- a/neps/sampling/samplers.py
+++ b/neps/sampling/samplers.py
@@ -158,19 +158,18 @@ class Sobol(Sampler):
             dimension=self.ndim, scramble=self.scramble, seed=_seed
         )
 
-        # If integer dtype, sobol will refuse, we need to cast then
+        # If integer dtype, sobol will refuse, we need to cast after translating
         if dtype is not None and not dtype.is_floating_point:
-            x = sobol.draw(_n, dtype=torch.float64)
-            x = x.to(dtype=dtype, device=device)
+            x = sobol.draw(_n, dtype=torch.float64).to(device=device)
         else:
-            x = sobol.draw(_n, dtype=dtype)
+            x = sobol.draw(_n, dtype=dtype).to(device=device)
 
         # If we got extra dimensions, such as batch dimensions, we need to
         # reshape the tensor to the desired shape.
         if isinstance(n, torch.Size):
             x = x.view(*n, self.ncols)
 
-        return Domain.translate(x, frm=UNIT_FLOAT_DOMAIN, to=to)
+        return Domain.translate(x, frm=UNIT_FLOAT_DOMAIN, to=to, dtype=dtype)
 
 
 @dataclass
-- 
2.43.0


From 7586f3b6cb18a06dd768498b35039cb1acc08cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:04 +0000
Subject: [PATCH 13/75] fix: the influence of the prior on the acquisition
 decays with its exponent for log acquisition functions too

---
 .../bayesian_optimization/acquisition_functions/pibo.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
index 9efac5e..d0d463a 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
@@ -40,7 +40,7 @@ def apply_pibo_acquisition_weight(
     prior_exponent: float,
 ) -> Tensor:
     if acq._log:
-        weighted_log_probs = prior.log_prob(X, frm=x_domain) + prior_exponent
+        weighted_log_probs = prior.log_prob(X, frm=x_domain) * prior_exponent
         return acq_values + weighted_log_probs
 
     weighted_probs = prior.prob(X, frm=x_domain).pow(prior_exponent)
-- 
2.43.0


From f5561625def56064956b665a91b6180e12a26359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:04 +0000
Subject: [PATCH 14/75] fix: bayesian optimization with more than 20
 categorical combinations or with missing costs no longer fails

---
 neps/optimizers/bayesian_optimization/models/gp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 44b6fa2..3518253 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -210,7 +210,7 @@ def optimize_acq(
     return optimize_acqf_mixed(
         acq_function=acq_fn,
         bounds=bounds,
-        num_restarts=min(num_restarts // n_combos, 2),
+        num_restarts=max(1, min(num_restarts // n_combos, 2)),
         raw_samples=n_intial_start_points,
         q=n_candidates_required,
         fixed_features_list=fixed_cats,
@@ -365,7 +365,7 @@ def fit_and_acquire_from_gp(
 
         # We simply ignore missing costs when training the cost GP.
         missing_costs = torch.isnan(costs)
-        if missing_costs.any():
+        if missing_costs.all():
             raise ValueError(
                 "Must have at least some configurations reported with a cost"
                 " if using costs with a GP."
@@ -373,8 +373,8 @@ def fit_and_acquire_from_gp(
 
         if missing_costs.any():
             not_missing_mask = ~missing_costs
-            x_train_cost = costs[not_missing_mask]
-            y_train_cost = x_train[not_missing_mask]
+            x_train_cost = x_train[not_missing_mask]
+            y_train_cost = costs[not_missing_mask]
         else:
             x_train_cost = x_train
             y_train_cost = costs
-- 
2.43.0


From af533bd8ac3a8a7ab010df6b310b9f8a47cf92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:26 +0000
Subject: [PATCH 15/75] fix: the prior of a hyperparameter is applied to this
 hyperparameter if categoricals sort before numericals

---
 neps/optimizers/bayesian_optimization/optimizer.py      | 5 ++++-
 neps/optimizers/initial_design.py                       | 3 ++-
 neps/optimizers/multi_fidelity/hyperband.py             | 5 ++++-
 neps/optimizers/multi_fidelity/ifbo.py                  | 3 ++-
 neps/optimizers/multi_fidelity_prior/async_priorband.py | 5 ++++-
 neps/optimizers/multi_fidelity_prior/priorband.py       | 5 ++++-
 6 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3531217..e4d9a6b 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -128,7 +128,10 @@ class BayesianOptimization(BaseOptimizer):
             params, constants=pipeline_space.constants
         )
         self.prior = (
-            Prior.from_parameters(params.values()) if use_priors is True else None
+            # In the order of the columns of the encoder
+            Prior.from_parameters(hp for _, hp in sorted(params.items()))
+            if use_priors is True
+            else None
         )
         self.use_cost = use_cost
         self.use_priors = use_priors
diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index eb99f42..0d03793 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -100,7 +100,8 @@ def make_initial_design(  # noqa: PLR0912, C901
         }
         configs.append({**default, **fids})
 
-    params = {**space.numerical, **space.categoricals}
+    # In the order of the columns of the encoder
+    params = dict(sorted({**space.numerical, **space.categoricals}.items()))
     ndims = len(params)
 
     if sample_size == "ndim":
diff --git a/neps/optimizers/multi_fidelity/hyperband.py b/neps/optimizers/multi_fidelity/hyperband.py
index 6dc4bdf..51eb939 100644
--- a/neps/optimizers/multi_fidelity/hyperband.py
+++ b/neps/optimizers/multi_fidelity/hyperband.py
@@ -555,7 +555,10 @@ class MOBSTER(MFBOBase, AsynchronousHyperband):
                 **self.pipeline_space.numerical,
                 **self.pipeline_space.categoricals,
             }
-            prior = Prior.from_parameters(parameters.values())
+            prior = Prior.from_parameters(
+                # In the order of the columns of the encoder
+                hp for _, hp in sorted(parameters.items())
+            )
         else:
             prior = None
 
diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e70cf70..3981189 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -140,7 +140,8 @@ class IFBO(BaseOptimizer):
         self._fidelity_name: str = space.fidelity_name
         self._initial_design: list[dict[str, Any]] | None = None
 
-        params = {**space.numerical, **space.categoricals}
+        # In the order of the columns of the encoder
+        params = dict(sorted({**space.numerical, **space.categoricals}.items()))
         self._prior = Prior.from_parameters(params.values()) if use_priors else None
         self._config_encoder: ConfigEncoder = ConfigEncoder.default(
             params,
diff --git a/neps/optimizers/multi_fidelity_prior/async_priorband.py b/neps/optimizers/multi_fidelity_prior/async_priorband.py
index 827ad5f..283a5ac 100644
--- a/neps/optimizers/multi_fidelity_prior/async_priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/async_priorband.py
@@ -121,7 +121,10 @@ class PriorBandAsha(MFBOBase, PriorBandBase, AsynchronousSuccessiveHalvingWithPr
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            prior=Prior.from_parameters(
+                # In the order of the columns of the encoder
+                hp for _, hp in sorted(parameters.items())
+            ),
         )
 
     def get_config_and_ids(
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index c41f4e4..978c5b6 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -386,7 +386,10 @@ class PriorBand(MFBOBase, HyperbandCustomDefault, PriorBandBase):
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            prior=Prior.from_parameters(
+                # In the order of the columns of the encoder
+                hp for _, hp in sorted(parameters.items())
+            ),
         )
 
         for _, sh in self.sh_brackets.items():
-- 
2.43.0


From 13c02da6c0d5cfc9b758f99fd8bbc2c899933000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:57 +0000
Subject: [PATCH 16/75] fix: denormalizing the end points of a float parameter
 never leaves its bounds

---
 neps/search_spaces/hyperparameters/float.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/float.py b/neps/search_spaces/hyperparameters/float.py
index 8badc76..1876a84 100644
--- a/neps/search_spaces/hyperparameters/float.py
+++ b/neps/search_spaces/hyperparameters/float.py
@@ -171,7 +171,8 @@ class FloatParameter(NumericalParameter[float]):
 
         normalized_value = normalized_value * (high - low) + low
         _value = np.exp(normalized_value) if self.log else normalized_value
-        return float(_value)
+        # Rounding errors must not move the end points out of the bounds
+        return float(min(self.upper, max(self.lower, _value)))
 
     @override
     def _get_non_unique_neighbors(
-- 
2.43.0


From 44a003011923d5e66eff25b26f48fcc98bec2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:57 +0000
Subject: [PATCH 17/75] fix: the grid of a search space contains no duplicates

---
 neps/search_spaces/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 34e885d..62b0001 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -626,8 +626,8 @@ class SearchSpace(Mapping[str, Any]):
                 _grid = (
                     _grid.astype(np.int64) if isinstance(hp, IntegerParameter) else _grid
                 )
-                _grid = np.unique(grid).tolist()
-                param_ranges.append(grid)
+                _grid = np.unique(_grid).tolist()
+                param_ranges.append(_grid)
                 continue
 
             raise NotImplementedError(f"Unknown Parameter type: {type(hp)}\n{hp}")
-- 
2.43.0


From ac52872ff540a00eba9cac9e9617cbd946090895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:57 +0000
Subject: [PATCH 18/75] fix: the simple mutation of a numerical parameter uses
 the sampled value

---
 neps/search_spaces/hyperparameters/numerical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/numerical.py b/neps/search_spaces/hyperparameters/numerical.py
index 62d5cd6..4c8e47d 100644
--- a/neps/search_spaces/hyperparameters/numerical.py
+++ b/neps/search_spaces/hyperparameters/numerical.py
@@ -196,8 +196,7 @@ class NumericalParameter(ParameterWithPrior[T, T], MutatableParameter):
             parent = self
 
         if mutation_strategy == "simple":
-            child = self.clone()
-            child.sample()
+            child = parent.sample()
         elif mutation_strategy == "local_search" and "std" in kwargs:
             child = self._get_non_unique_neighbors(std=kwargs["std"], num_neighbours=1)[0]
         elif mutation_strategy == "local_search":
-- 
2.43.0


From 556b813818da719a2e78eb161c130bf0fb66a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:57 +0000
Subject: [PATCH 19/75] fix: a changed confidence in the default survives
 cloning and is used by the prior

---
 neps/search_spaces/parameter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/search_spaces/parameter.py b/neps/search_spaces/parameter.py
index e58014e..a0f1a55 100644
--- a/neps/search_spaces/parameter.py
+++ b/neps/search_spaces/parameter.py
@@ -266,6 +266,7 @@ class ParameterWithPrior(Parameter[ValueT, SerializedT]):
                 f" {list(self.DEFAULT_CONFIDENCE_SCORES.keys())}"
             )
 
+        self.default_confidence_choice = default_confidence
         self.default_confidence_score = self.DEFAULT_CONFIDENCE_SCORES[default_confidence]
 
     def sample(self, *, user_priors: bool = False) -> Self:
-- 
2.43.0


From 1776d0cefa917ce5da2114db3f40af95111c5fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:57 +0000
Subject: [PATCH 20/75] fix: configurations with different float constants are
 not equal

---
 neps/search_spaces/search_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 62b0001..ea2f072 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -854,7 +854,9 @@ class SearchSpace(Mapping[str, Any]):
             if not isinstance(other_hp, type(this_hp)):
                 return False
 
-            if isinstance(this_hp.value, float):
+            if isinstance(this_hp, NumericalParameter) and isinstance(
+                this_hp.value, float
+            ):
                 this_norm = this_hp.value_to_normalized(this_hp.value)
                 other_norm = other_hp.value_to_normalized(other_hp.value)  # type: ignore
                 if np.round(this_norm - other_norm, on_decimal) != 0:
-- 
2.43.0


From f261eaa376ae67ba6fdaa10005713f1a4bf26129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:57 +0000
Subject: [PATCH 21/75] fix: loading a value or setting a default of an integer
 parameter checks the bounds and keeps its derived values in step

---
 neps/search_spaces/hyperparameters/integer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 73861ad..eef0ff8 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -112,18 +112,29 @@ class IntegerParameter(NumericalParameter[int]):
 
     @override
     def load_from(self, value: Number) -> None:
-        self._value = int(np.rint(value))
+        self.set_value(int(np.rint(value)))
 
     @override
     def set_default(self, default: int | None) -> None:
         if default is None:
             self.default = None
             self.has_prior = False
+            self.log_default = None
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
+            if not self.lower <= _default <= self.upper:
+                cls_name = self.__class__.__name__
+                raise ValueError(
+                    f"{cls_name} parameter: default bounds error. Expected lower <="
+                    f" default <= upper, but got lower={self.lower},"
+                    f" default={default}, upper={self.upper}"
+                )
+
             self.default = _default
             self.has_prior = True
+            if self.log:
+                self.log_default = float(np.log(_default))
             self.float_hp.set_default(_default)
 
     @override
-- 
2.43.0


From 8f4c9514dc9d325b87c7d7a9d1de958e5654dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:04 +0000
Subject: [PATCH 22/75] fix: casting a single value between domains keeps its
 precision

---
 neps/search_spaces/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 38d3d62..9fd3cb9 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -423,7 +423,7 @@ class Domain(Generic[V]):
         Returns:
             Value cast to this domain.
         """
-        return self.cast(torch.tensor(x), frm=frm).item()
+        return self.cast(torch.tensor(x, dtype=torch.float64), frm=frm).item()
 
     def to_unit_one(self, x: float | int) -> float:
         """Transform a single value from this domain to the unit interval [0, 1].
@@ -434,7 +434,7 @@ class Domain(Generic[V]):
         Returns:
             Value normalized to the unit interval [0, 1].
         """
-        return self.to_unit(torch.tensor(x)).item()
+        return self.to_unit(torch.tensor(x, dtype=torch.float64)).item()
 
     def as_integer_domain(self) -> Domain:
         """Get the integer version of this domain.
-- 
2.43.0


From 0af6c8d5ef93de9c91994ee5fbe12deb2640032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:53 +0000
Subject: [PATCH 23/75] fix: the border sampler returns the requested dtype

---
 neps/sampling/samplers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neps/sampling/samplers.py b/neps/sampling/samplers.py
index c39e115..6840908 100644
--- a/neps/sampling/samplers.py
+++ b/neps/sampling/samplers.py
@@ -306,8 +306,6 @@ class BorderSampler(Sampler):
         device: torch.device | None = None,
         dtype: torch.dtype | None = None,
     ) -> torch.Tensor:
-        dtype = dtype or torch.float64
-
         _arange = torch.arange(self.n_possible, device=device, dtype=torch.int32)
         # Calculate the total number of samples required
         if isinstance(n, int):
@@ -333,7 +331,7 @@ class BorderSampler(Sampler):
 
         # https://stackoverflow.com/a/63546308/5332072
         bit_masks = 2 ** _arange[: self.ndim]
-        configs = configs.unsqueeze(1).bitwise_and(bit_masks).ne(0).to(dtype)
+        configs = configs.unsqueeze(1).bitwise_and(bit_masks).ne(0).to(torch.float64)
         # Reshape to the output shape including ncols dimension
         configs = configs.view(output_shape)
-        return Domain.translate(configs, frm=UNIT_FLOAT_DOMAIN, to=to)
+        return Domain.translate(configs, frm=UNIT_FLOAT_DOMAIN, to=to, dtype=dtype)
-- 
2.43.0


From cf0f0aa8d04e6e976721729e2690aa133a3c713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:39 +0000
Subject: [PATCH 24/75] fix: grid search visits every configuration once and
 can be created by neps.run

---
 neps/optimizers/grid_search/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..85c8e56 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import random
 from collections.abc import Mapping
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 from typing_extensions import override
 
 from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
@@ -19,6 +19,7 @@ class GridSearch(BaseOptimizer):
         pipeline_space: SearchSpace,
         grid_step_size: int = 10,
         seed: int | None = None,
+        **kwargs: Any,  # TODO: Remove
     ):
         super().__init__(pipeline_space=pipeline_space)
         grid = self.pipeline_space.get_search_space_grid(
@@ -36,7 +37,9 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
+        # The order must be the same for every call, worker and continuation of the run,
+        # otherwise some configurations are repeated and others are never evaluated.
+        rng = random.Random(0 if self.seed is None else self.seed)
         configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
-- 
2.43.0


From 6488f594065dd4d50c7f9dee8f78753803997f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:39 +0000
Subject: [PATCH 25/75] fix: random search evaluates at the maximum fidelity
 when ignoring the fidelity, as documented

---
 neps/optimizers/random_search/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/random_search/optimizer.py b/neps/optimizers/random_search/optimizer.py
index 131ca6e..1d0f0ad 100644
--- a/neps/optimizers/random_search/optimizer.py
+++ b/neps/optimizers/random_search/optimizer.py
@@ -56,6 +56,9 @@ class RandomSearch(BaseOptimizer):
             user_priors=self.use_priors,
             ignore_fidelity=self.ignore_fidelity,
         )
+        if self.ignore_fidelity and config.has_fidelity:
+            config.set_to_max_fidelity()
+
         config_id = str(n_trials + 1)
         return SampledConfig(
             config=config.hp_values(), id=config_id, previous_config_id=None
-- 
2.43.0


From e19ef5e008328f96473b9da6b6f0195f95d58ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:39 +0000
Subject: [PATCH 26/75] fix: the cost of a report is its cost, not its loss

---
 neps/optimizers/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/base_optimizer.py b/neps/optimizers/base_optimizer.py
index 898508c..0f36032 100644
--- a/neps/optimizers/base_optimizer.py
+++ b/neps/optimizers/base_optimizer.py
@@ -149,7 +149,7 @@ class BaseOptimizer:
         # use `Trial` and `Report`, they already take care of this and save having to do
         # this `_get_loss` at every call
         if isinstance(result, Report):
-            return result.loss if result.loss is not None else "error"
+            return result.cost if result.cost is not None else "error"
 
         return _get_cost(
             result,
-- 
2.43.0


From 9e322278c85eee90f8df47c99fead049115c1c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 27/75] fix: a categorical parameter that refuses a value keeps
 its old one

---
 neps/search_spaces/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index d44499b..7c94a02 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -268,8 +268,8 @@ class CategoricalParameter(
             self.normalized_value = None
             return
 
-        self._value = value
         self._value_index = self.choices.index(value)
+        self._value = value
         self.normalized_value = float(self._value_index)
 
     @override
-- 
2.43.0


From c6b4a115f504b8a1a254fdf43d7b7a61fefeffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 28/75] fix: tensors and arrays without dimension can be stored
 as part of a result

---
 neps/utils/files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neps/utils/files.py b/neps/utils/files.py
index 5fcbef6..197f69c 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -48,16 +48,17 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     if isinstance(data, Mapping):
         return {key: serializable_format(val) for key, val in data.items()}
 
-    if not isinstance(data, str) and isinstance(data, Iterable):
-        return [serializable_format(val) for val in data]
-
-    if type(data).__module__ in ["numpy", "torch"]:
+    # NOTE: Before iterables, as arrays and tensors without a dimension claim to be one
+    if type(data).__module__ in ["numpy", "torch"] and hasattr(data, "tolist"):
         data = data.tolist()  # type: ignore
         if type(data).__module__ == "numpy":
             data = data.item()
 
         return serializable_format(data)
 
+    if not isinstance(data, str) and isinstance(data, Iterable):
+        return [serializable_format(val) for val in data]
+
     return data
 
 
-- 
2.43.0


From d290deacfefd74fd4385c9d0f05f7bc697317f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 29/75] fix: storing the report of a crashed evaluation no
 longer fails for errors that can not be copied

---
 neps/state/filebased.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 81359c9..aff13a9 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -265,7 +265,9 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
-            serialize(asdict(trial.report), report_path)
+            # NOTE: Not `asdict()`, as it has to copy the error and the results, which not
+            # every exception (e.g. with its own arguments) or tensor supports.
+            serialize(vars(trial.report), report_path)
 
         # NOTE: Written last, so that a trial is never in a completed state without
         # having its report, even if interrupted in between.
-- 
2.43.0


From f69b206b97e398b2e71d92a9c1055aa1a9761f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:25 +0000
Subject: [PATCH 30/75] fix: evaluating a result accepts arrays as learning
 curve and does not change the user's info_dict

---
 neps/state/_eval.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index f3153a6..3b30668 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -49,14 +49,20 @@ def parse_user_result(
         if extracted_learning_curve is _notset:
             # HACK: Backwards compat, check if it's in the "info_dict" key
             if "info_dict" in user_result:
-                extracted_learning_curve = user_result["info_dict"].pop(
+                # NOTE: The user may still hold on to this dictionary, don't change it.
+                info_dict = dict(user_result["info_dict"])
+                user_result["info_dict"] = info_dict
+                extracted_learning_curve = info_dict.pop(
                     "learning_curve",
                     default_learning_curve,
                 )
             else:
                 extracted_learning_curve = default_learning_curve
 
-        if extracted_learning_curve == "loss":
+        if (
+            isinstance(extracted_learning_curve, str)
+            and extracted_learning_curve == "loss"
+        ):
             extracted_learning_curve = [extracted_loss]
 
         extra = user_result
-- 
2.43.0


From a03c2d68bc80a2292e354f2b7e0777c5b569b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:25 +0000
Subject: [PATCH 31/75] fix: looking at the result of a report does not add the
 learning curve to it

---
 neps/state/trial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/trial.py b/neps/state/trial.py
index 75ad066..33b9c29 100644
--- a/neps/state/trial.py
+++ b/neps/state/trial.py
@@ -88,7 +88,10 @@ class Report:
             # `get_loss`, `get_cost`, `get_learning_curve` methods of `BaseOptimizer`
             # and just use the `Report` directly.
             if "info_dict" not in d or "learning_curve" not in d["info_dict"]:
-                d.setdefault("info_dict", {})["learning_curve"] = self.learning_curve
+                d["info_dict"] = {
+                    **d.get("info_dict", {}),
+                    "learning_curve": self.learning_curve,
+                }
             return d
 
         return "error"
-- 
2.43.0


From 5cc94e9b37122e31e25fd1c7ec1236664dfd2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:19 +0000
Subject: [PATCH 32/75] fix: an evaluation that is interrupted no longer blocks
 later runs in the same process

---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..8ceed41 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From 4f950f020de0ace373694143accfbb4836a5fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:19 +0000
Subject: [PATCH 33/75] fix: giving both a loss and a cost for errors
 suppresses them, as documented

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 8ceed41..347aafc 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -536,6 +536,7 @@ def _launch_runtime(  # noqa: PLR0913
         on_error=(
             OnErrorPossibilities.IGNORE
             if ignore_errors
+            or (loss_value_on_error is not None and cost_value_on_error is not None)
             else OnErrorPossibilities.RAISE_ANY_ERROR
         ),
         default_report_values=DefaultReportValues(
-- 
2.43.0


From 8f94adb07aa8fd4408595647f7eef3dbba079718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:35 +0000
Subject: [PATCH 34/75] fix: dataclasses with values that can not be copied can
 be stored as part of a result

---
 neps/utils/files.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/utils/files.py b/neps/utils/files.py
index 197f69c..39bb5e8 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -37,7 +37,11 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
         return serializable_format(data.serialize())
 
     if dataclasses.is_dataclass(data) and not isinstance(data, type):
-        return serializable_format(dataclasses.asdict(data))  # type: ignore
+        # NOTE: Not `asdict()`, as it has to copy all values, which not all support.
+        return {
+            f.name: serializable_format(getattr(data, f.name))
+            for f in dataclasses.fields(data)
+        }
 
     if isinstance(data, Exception):
         return str(data)
-- 
2.43.0


From 3c2c9ffc0abaf1b3f14a8fb3d4918713ff8c37ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:54 +0000
Subject: [PATCH 35/75] fix: the loss and cost given for errors are used when
 errors are ignored too

---
 neps/optimizers/base_optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/neps/optimizers/base_optimizer.py b/neps/optimizers/base_optimizer.py
index 0f36032..0982531 100644
--- a/neps/optimizers/base_optimizer.py
+++ b/neps/optimizers/base_optimizer.py
@@ -21,12 +21,12 @@ def _get_loss(
     ignore_errors: bool = False,
 ) -> ERROR | float:
     if result == "error":
-        if ignore_errors:
-            return "error"
-
         if loss_value_on_error is not None:
             return loss_value_on_error
 
+        if ignore_errors:
+            return "error"
+
         raise ValueError(
             "An error happened during the execution of your run_pipeline function."
             " You have three options: 1. If the error is expected and corresponds to"
@@ -49,10 +49,10 @@ def _get_cost(
     ignore_errors: bool = False,
 ) -> float | Any:
     if result == "error":
-        if ignore_errors:
-            return "error"
+        if cost_value_on_error is not None:
+            return cost_value_on_error
 
-        if cost_value_on_error is None:
+        if not ignore_errors:
             raise ValueError(
                 "An error happened during the execution of your run_pipeline function."
                 " You have three options: 1. If the error is expected and corresponds to"
@@ -61,7 +61,7 @@ def _get_cost(
                 " crashes randomly, you can set ignore_errors=True. 3. Fix your error."
             )
 
-        return cost_value_on_error
+        return "error"
 
     if isinstance(result, Mapping):
         return float(result["cost"])
-- 
2.43.0


From 94d0027d6714ef92dbfa8dcfa5f1f79bed4837e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:23 +0000
Subject: [PATCH 36/75] fix: failed evaluations and losses of nan count as the
 worst results in successive halving instead of crashing or blocking it

---
 neps/optimizers/multi_fidelity/successive_halving.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..4bf16c4 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -226,6 +226,10 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            if perf == "error" or np.isnan(perf):
+                # Failed evaluations are complete, but never better than others. `nan` is
+                # reserved for the pending ones.
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
-- 
2.43.0


From 408983fb137e0be2242744dc838cdf8d1ce70e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 37/75] fix: bayesian optimization copes with histories that
 have no finite loss yet

---
 neps/optimizers/bayesian_optimization/models/gp.py | 6 ++++--
 neps/optimizers/bayesian_optimization/optimizer.py | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 3518253..5cbc619 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -260,8 +260,10 @@ def encode_trials_for_gp(
     # not end up with a highly skewed function apprxoimation, for example,
     # setting tiny lengthscales, to ensure it can model the sharp change
     # in the performance around the crashed config.
-    fill_value = torch.nanmedian(y_train).item()
-    y_train = torch.nan_to_num(y_train, nan=fill_value)
+    # If there is nothing to take the median of, any constant does.
+    finite = torch.isfinite(y_train)
+    fill_value = y_train[finite].median().item() if finite.any() else 0.0
+    y_train = torch.where(finite, y_train, fill_value)
 
     cost_train = torch.tensor(train_costs, dtype=torch.float64, device=device)
     if len(pending_configs) > 0:
diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index e4d9a6b..c29c775 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -168,6 +168,12 @@ class BayesianOptimization(BaseOptimizer):
         if n_sampled < len(self.init_design):
             return SampledConfig(id=config_id, config=self.init_design[n_sampled])
 
+        # There is nothing to fit a GP to while all of the initial design is evaluated by
+        # other workers.
+        if all(trial.report is None for trial in trials.values()):
+            sample = space.sample(patience=self.patience, user_priors=self.use_priors)
+            return SampledConfig(id=config_id, config=sample.hp_values())
+
         # Otherwise, we encode trials and setup to fit and acquire from a GP
         data, encoder = encode_trials_for_gp(
             trials, space, device=self.device, encoder=self.encoder
-- 
2.43.0


From f00c650850ae534e5d900c5d58cea1e36ecbec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 38/75] fix: the initial design of bayesian optimization covers
 the whole search space, not only its lower end

---
 neps/optimizers/initial_design.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index 0d03793..5826374 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -123,7 +123,13 @@ def make_initial_design(  # noqa: PLR0912, C901
                 pass
 
         encoded_configs = sampler.sample(sample_size * 2, to=encoder.domains, seed=seed)
-        uniq_x = torch.unique(encoded_configs, dim=0)
+        # Keep the order of sampling, the unique rows are sorted and the first of them
+        # would only come from one end of the space.
+        _, row_ids = torch.unique(encoded_configs, dim=0, return_inverse=True)
+        first_row: dict[int, int] = {}
+        for row, row_id in enumerate(row_ids.tolist()):
+            first_row.setdefault(row_id, row)
+        uniq_x = encoded_configs[list(first_row.values())]
         sample_configs = encoder.decode(uniq_x[:sample_size])
         configs.extend([{**config, **fids} for config in sample_configs])
 
-- 
2.43.0


From 9643089e046459d7df21d2cebbeb8553fedb6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:08 +0000
Subject: [PATCH 39/75] fix: mobster and priorband with a model use their
 acquisition function instead of failing after the initial design

---
 neps/optimizers/multi_fidelity/hyperband.py   |  1 +
 neps/optimizers/multi_fidelity/mf_bo.py       |  4 --
 .../multi_fidelity/sampling_policy.py         | 38 ++++++++++---------
 .../multi_fidelity_prior/async_priorband.py   |  6 ++-
 .../multi_fidelity_prior/priorband.py         |  6 ++-
 5 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/hyperband.py b/neps/optimizers/multi_fidelity/hyperband.py
index 51eb939..d185e59 100644
--- a/neps/optimizers/multi_fidelity/hyperband.py
+++ b/neps/optimizers/multi_fidelity/hyperband.py
@@ -554,6 +554,7 @@ class MOBSTER(MFBOBase, AsynchronousHyperband):
             parameters = {
                 **self.pipeline_space.numerical,
                 **self.pipeline_space.categoricals,
+                **self.pipeline_space.fidelities,
             }
             prior = Prior.from_parameters(
                 # In the order of the columns of the encoder
diff --git a/neps/optimizers/multi_fidelity/mf_bo.py b/neps/optimizers/multi_fidelity/mf_bo.py
index 6686a84..c7569ef 100755
--- a/neps/optimizers/multi_fidelity/mf_bo.py
+++ b/neps/optimizers/multi_fidelity/mf_bo.py
@@ -169,7 +169,6 @@ class MFBOBase:
     ) -> SearchSpace:
         """Samples configuration from policies or random."""
         if self.model_based and not self.is_init_phase():
-            incumbent = None
             if self.modelling_type == "rung":
                 # `rung` should not be None when not in init phase
                 active_max_rung = self._active_rung()
@@ -178,8 +177,6 @@ class MFBOBase:
             elif self.modelling_type == "joint":
                 fidelity = self.rung_map[rung]
                 active_max_fidelity = None
-                # IMPORTANT step for correct 2-step acquisition
-                incumbent = min(self.rung_histories[rung]["perf"])
             else:
                 raise ValueError("Choice of modelling_type not in 'rung', 'joint'")
             assert (
@@ -190,7 +187,6 @@ class MFBOBase:
             config = self.model_policy.sample(
                 active_max_fidelity=active_max_fidelity,
                 fidelity=fidelity,
-                incumbent=incumbent,
                 **self.sampling_args,
             )
         elif self.sampling_policy is not None:
diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 02bcb90..cd43f5a 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -294,7 +294,11 @@ class ModelPolicy(SamplingPolicy):
         self.device = device
         self.prior = prior
         self._encoder = ConfigEncoder.default(
-            {**pipeline_space.numerical, **pipeline_space.categoricals},
+            {
+                **pipeline_space.numerical,
+                **pipeline_space.categoricals,
+                **pipeline_space.fidelities,
+            },
             constants=pipeline_space.constants,
         )
         self._model: SingleTaskGP | None = None
@@ -310,6 +314,10 @@ class ModelPolicy(SamplingPolicy):
         x_train = self._encoder.encode([config.hp_values() for config in train_x])
         x_pending = self._encoder.encode([config.hp_values() for config in pending_x])
         y_train = torch.tensor(train_y, dtype=torch.float64, device=self.device)
+        # The same treatment of failed evaluations as in BO
+        finite = torch.isfinite(y_train)
+        fill_value = y_train[finite].median().item() if finite.any() else 0.0
+        y_train = torch.where(finite, y_train, fill_value)
 
         # TODO: Most of this just copies BO and the duplication can be replaced
         # once we don't have the two stage `update_model()` and `sample()`
@@ -335,7 +343,7 @@ class ModelPolicy(SamplingPolicy):
             # arbitrary term. This 10 is extracted from the old DecayingWeightedPrior
             pibo_exp_term = 10 / decay_t
             significant_lower_bound = 1e-4  # No significant impact beyond this point
-            if pibo_exp_term < significant_lower_bound:
+            if pibo_exp_term > significant_lower_bound:
                 acq = pibo_acquisition(
                     acq,
                     prior=self.prior,
@@ -373,33 +381,29 @@ class ModelPolicy(SamplingPolicy):
         ]
 
         if fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
-            _inc_copy = self.acquisition.incumbent
-            # TODO: better design required, for example, not import torch
-            #  right now this case handles the 2-step acquisition in `sample`
-            if "incumbent" in kwargs:
-                # sets the incumbent to the best score at the required fidelity for
-                # correct computation of EI scores
-                self.acquisition.incumbent = torch.tensor(kwargs["incumbent"])
             # updating the fidelity of the sampled configurations
             samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
             # computing EI at the given `fidelity`
-            eis = self.acquisition.eval(x=samples, asscalar=True)
+            eis = self._evaluate_acquisition(samples)
             # extracting the 10 highest scores
             _ids = np.argsort(eis)[-TOP_EI_SAMPLE_COUNT:]
             samples = pd.Series(samples).iloc[_ids].values.tolist()
             # setting the fidelity to the maximum fidelity
-            self.acquisition.optimize_on_max_fidelity = True
-            self.acquisition.incumbent = _inc_copy
+            assert self.pipeline_space.fidelity is not None
+            max_fidelity = self.pipeline_space.fidelity.upper
+            samples = list(map(update_fidelity, samples, [max_fidelity] * len(samples)))
 
         if active_max_fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
             fidelity = active_max_fidelity
             samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
 
         # computes the EI for all `samples`
-        eis = self.acquisition.eval(x=samples, asscalar=True)
+        eis = self._evaluate_acquisition(samples)
         # extracting the highest scored sample
         return samples[np.argmax(eis)]
+
+    def _evaluate_acquisition(self, configs: list[SearchSpace]) -> np.ndarray:
+        assert self._acq is not None
+        x = self._encoder.encode([config.hp_values() for config in configs])
+        with torch.no_grad():
+            return self._acq(x.unsqueeze(-2)).cpu().numpy()
diff --git a/neps/optimizers/multi_fidelity_prior/async_priorband.py b/neps/optimizers/multi_fidelity_prior/async_priorband.py
index 283a5ac..da33ad4 100644
--- a/neps/optimizers/multi_fidelity_prior/async_priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/async_priorband.py
@@ -118,7 +118,11 @@ class PriorBandAsha(MFBOBase, PriorBandBase, AsynchronousSuccessiveHalvingWithPr
         if self.modelling_type == "joint" and self.initial_design_size is not None:
             self.init_size = self.initial_design_size
 
-        parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
+        parameters = {
+            **self.pipeline_space.numerical,
+            **self.pipeline_space.categoricals,
+            **self.pipeline_space.fidelities,
+        }
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
             prior=Prior.from_parameters(
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index 978c5b6..7c60dc3 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -383,7 +383,11 @@ class PriorBand(MFBOBase, HyperbandCustomDefault, PriorBandBase):
         self.init_size = n_min + 1  # in BOHB: init_design >= N_min + 2
         if self.modelling_type == "joint" and self.initial_design_size is not None:
             self.init_size = self.initial_design_size
-        parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
+        parameters = {
+            **self.pipeline_space.numerical,
+            **self.pipeline_space.categoricals,
+            **self.pipeline_space.fidelities,
+        }
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
             prior=Prior.from_parameters(
-- 
2.43.0


From 54275af2b7317adb4014ee88a2868368cb00b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:22 +0000
Subject: [PATCH 40/75] fix: all brackets of hyperband agree on the number of
 rungs, and fidelities of rungs never leave the bounds

---
 .../multi_fidelity/successive_halving.py      | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 4bf16c4..2c96b49 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -123,8 +123,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
 
         # check to ensure no rung ID is negative
         # equivalent to s_max in https://arxiv.org/pdf/1603.06560.pdf
+        # (rounded, as the logarithms of exact powers of `eta` are not exact)
         self.stopping_rate_limit = np.floor(
-            np.log(self.max_budget / self.min_budget) / np.log(self.eta)
+            np.round(np.log(self.max_budget / self.min_budget) / np.log(self.eta), 10)
         ).astype(int)
         assert self.early_stopping_rate <= self.stopping_rate_limit
 
@@ -175,13 +176,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
     def _get_rung_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to a fidelity value based on fidelity bounds, eta, s."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self.stopping_rate_limit - s + 1
         _max_budget = self.max_budget
         rung_map = {}
         for i in reversed(range(nrungs)):
@@ -190,19 +185,14 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 if isinstance(self.pipeline_space.fidelity, IntegerParameter)
                 else _max_budget
             )
-            _max_budget /= self.eta
+            # never below the bounds by the inexactness of the division
+            _max_budget = max(_max_budget / self.eta, self.min_budget)
         return rung_map
 
     def _get_config_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to the number of configs for each fidelity."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self.stopping_rate_limit - s + 1
         s_max = self.stopping_rate_limit + 1
         _s = self.stopping_rate_limit - s
         # L2 from Alg 1 in https://arxiv.org/pdf/1603.06560.pdf
-- 
2.43.0


From f56b6ec215552b9e53c4456abd99aecf9a9ecc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:35 +0000
Subject: [PATCH 41/75] fix: whether successive halving interleaves a random
 sample is part of the stored random state

---
 neps/optimizers/multi_fidelity/successive_halving.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 2c96b49..4691df9 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -414,8 +414,8 @@ class SuccessiveHalvingBase(BaseOptimizer):
             config_id = f"{row.name}_{rung}"
         else:
             rung_id = self.min_rung
-            # using random instead of np.random to be consistent with NePS BO
-            rng = random.Random(None)  # TODO: Seeding
+            # using random instead of np.random to be consistent with NePS BO, and the
+            # global state of it as this is what is stored for continuing a run
 
             if (
                 self.use_priors
@@ -429,7 +429,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 logger.info("Sampling the default configuration...")
                 config = self.pipeline_space.sample_default_configuration()
 
-            elif rng.random() < self.random_interleave_prob:
+            elif random.random() < self.random_interleave_prob:
                 config = self.pipeline_space.sample(
                     patience=self.patience,
                     user_priors=False,  # sample uniformly random
-- 
2.43.0


From 324818484b6fc5607346d246059dd2d1981fd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:24 +0000
Subject: [PATCH 42/75] fix: asynchronous successive halving works with an
 early stopping rate above zero

---
 neps/optimizers/multi_fidelity/promotion_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..9a802c7 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -98,7 +98,7 @@ class AsyncPromotionPolicy(PromotionPolicy):
     def retrieve_promotions(self) -> dict:
         """Returns the top 1/eta configurations per rung if enough configurations seen."""
         assert self.max_rung is not None
-        for rung in range(self.max_rung + 1):
+        for rung in sorted(self.rung_members):
             if rung == self.max_rung:
                 # cease promotions for the highest rung (configs at max budget)
                 continue
-- 
2.43.0


From 74bedb82b9b5eae2162089bc4d7ef967f3324206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:59 +0000
Subject: [PATCH 43/75] fix: successive halving and hyperband can be asked
 while all evaluations are pending

---
 neps/optimizers/multi_fidelity/successive_halving.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 4691df9..d04659d 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -259,9 +259,12 @@ class SuccessiveHalvingBase(BaseOptimizer):
                     columns=self.observed_configs.columns,
                     index=pd.Series(int(_config)),  # key for config_id
                 )
-                self.observed_configs = pd.concat(
-                    (self.observed_configs, _df)
-                ).sort_index()
+                if self.observed_configs.empty:
+                    self.observed_configs = _df
+                else:
+                    self.observed_configs = pd.concat(
+                        (self.observed_configs, _df)
+                    ).sort_index()
             else:
                 self.observed_configs.at[int(_config), "rung"] = int(_rung)
                 self.observed_configs.at[int(_config), "perf"] = np.nan
-- 
2.43.0


From 985f42399664f3634b761c6a1c24b7d572127290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 44/75] fix: the acquisition function can be weighted by prior
 and cost together while evaluations are pending

---
 .../acquisition_functions/weighted_acquisition.py      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py b/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
index fd23d33..b76fb34 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py
@@ -121,6 +121,16 @@ class WeightedAcquisition(AcquisitionFunction):
             acq.set_X_pending(None)
             self.set_X_pending(None)
 
+        # Weighting a weighted acquisition function applies both weights to the values of
+        # the innermost one, which are not yet reduced over the `q` dimension.
+        if isinstance(acq, WeightedAcquisition):
+            inner, inner_weight, outer_weight = acq.acq, acq.apply_weight, apply_weight
+
+            def apply_weight(acq_values: Tensor, X: Tensor, acq: A) -> Tensor:
+                return outer_weight(inner_weight(acq_values, X, acq), X, acq)
+
+            acq = inner
+
         self.apply_weight = apply_weight
         self.acq = acq
         self._log = acq._log
-- 
2.43.0


From f16eb5720862943630a3212980352276dba5e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 45/75] fix: mutating an integer terminates when the standard
 deviation is far below the distance of two integers

---
 neps/search_spaces/hyperparameters/integer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index eef0ff8..4e3a8b8 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -191,6 +191,7 @@ class IntegerParameter(NumericalParameter[int]):
 
         # TODO(eddiebergman): This whole thing can be vectorized, not sure
         # if we ever have enough num_neighbours to make it worth it
+        n_unchanged = 0
         while len(neighbours) < num_neighbours:
             n_val = np.random.normal(vectorized_val, std)
             if n_val < 0 or n_val > 1:
@@ -198,6 +199,10 @@ class IntegerParameter(NumericalParameter[int]):
 
             sampled_value = self.normalized_to_value(n_val)
             if sampled_value == self.value:
+                # A `std` far below the distance to the next integer never reaches it
+                n_unchanged += 1
+                if n_unchanged % 100 == 0:
+                    std *= 2
                 continue
 
             neighbour = self.clone()
-- 
2.43.0


From b72189f5caec7d9f610c0c7ba1ad3d0ceaf123c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 46/75] fix: priorband samples around the incumbent when it is
 the only configuration

---
 neps/optimizers/multi_fidelity/sampling_policy.py | 4 +++-
 neps/optimizers/multi_fidelity_prior/priorband.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index cd43f5a..fbf75a6 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -138,6 +138,8 @@ class EnsemblePolicy(SamplingPolicy):
             compute_config_dist,
         )
 
+        # a radius of 0 could not be increased
+        distance = max(distance, tolerance)
         while True:
             # sampling a config
             config = self.pipeline_space.sample(
@@ -146,7 +148,7 @@ class EnsemblePolicy(SamplingPolicy):
             # computing distance from incumbent
             d = compute_config_dist(config, incumbent)
             # checking if sample is within the hypersphere around the incumbent
-            if d < max(distance, tolerance):
+            if d < distance:
                 # accept sample
                 break
             sample_counter += 1
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index 7c60dc3..d026017 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -67,7 +67,8 @@ class PriorBandBase:
     def find_1nn_distance_from_incumbent(self, incumbent: SearchSpace) -> float:
         """Finds the distance to the nearest neighbour."""
         distances = self.find_all_distances_from_incumbent(incumbent)
-        return min(distances)
+        # there may be no other configuration than the incumbent
+        return min(distances, default=0.0)
 
     def find_incumbent(self, rung: int | None = None) -> SearchSpace:
         """Find the best performing configuration seen so far."""
-- 
2.43.0


From 62ebebbaac700730bd16c32792278796928d9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 47/75] fix: what priorband proposes does not depend on the
 order in which the trials are read

---
 neps/optimizers/multi_fidelity/successive_halving.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index d04659d..6a4aa0f 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -213,7 +213,11 @@ class SuccessiveHalvingBase(BaseOptimizer):
         self,
         previous_results: dict[str, ConfigResult],
     ) -> None:
-        for config_id, config_val in previous_results.items():
+        # The order in which trials are read must not matter, also not for ties
+        for config_id, config_val in sorted(
+            previous_results.items(),
+            key=lambda item: tuple(map(int, self._get_config_id_split(item[0]))),
+        ):
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
             if perf == "error" or np.isnan(perf):
-- 
2.43.0


From 1c253c6532250a7696bd76fc0a066df237272ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:38 +0000
Subject: [PATCH 48/75] fix: the initial directory of a trial is the one of its
 own run, not of an earlier run in the same process

---
 neps/utils/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neps/utils/common.py b/neps/utils/common.py
index 1e73506..5352e68 100644
--- a/neps/utils/common.py
+++ b/neps/utils/common.py
@@ -164,8 +164,10 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     else:
         trial = get_in_progress_trial()
 
-    if trial.metadata.id in _INTIAL_DIRECTORY_CACHE:
-        return _INTIAL_DIRECTORY_CACHE[trial.metadata.id]
+    # NOTE: The ids are only unique within one run, a process may do several of them
+    location = trial.metadata.location
+    if location in _INTIAL_DIRECTORY_CACHE:
+        return _INTIAL_DIRECTORY_CACHE[location]
 
     # Recursively find the initial directory
     while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
@@ -177,7 +179,7 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     assert isinstance(initial_dir, str)
     path = Path(initial_dir)
 
-    _INTIAL_DIRECTORY_CACHE[trial.metadata.id] = path
+    _INTIAL_DIRECTORY_CACHE[location] = path
     return path
 
 
-- 
2.43.0


From 5381889fb2eecc4754869ba553e434eac1487305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:38 +0000
Subject: [PATCH 49/75] fix: the status shows the best losses and all
 configurations instead of looking for files that do not exist

---
 neps/status/status.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 9a26f12..fa77d74 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -137,29 +137,50 @@ def status(
         print(f"Best config id: {summary['best_config_id']}")
         print(f"Best config: {summary['best_config']}")
 
+        # The evaluations in the order they finished, and those among them which
+        # improved on all before
+        evaluations = sorted(
+            summary["previous_results"].values(),
+            key=lambda evaluation: evaluation.metadata["time_end"] or 0,
+        )
+        improvements: list[_ConfigResultForStats] = []
+        for evaluation in evaluations:
+            loss = evaluation.loss
+            if isinstance(loss, float) and loss < (
+                improvements[-1].loss if improvements else float("inf")  # type: ignore
+            ):
+                improvements.append(evaluation)
+
         if best_losses:
             print()
             print("Best loss across evaluations:")
-            best_loss_trajectory = root_directory / "best_loss_trajectory.txt"
-            print(best_loss_trajectory.read_text(encoding="utf-8"))
+            for evaluation in improvements:
+                print(evaluation.loss)
 
         if best_configs:
             print()
             print("Best configs and their losses across evaluations:")
             print(79 * "-")
-            best_loss_config = root_directory / "best_loss_with_config_trajectory.txt"
-            print(best_loss_config.read_text(encoding="utf-8"))
+            for evaluation in improvements:
+                _print_config_and_loss(evaluation)
 
         if all_configs:
             print()
             print("All evaluated configs and their losses:")
             print(79 * "-")
-            all_loss_config = root_directory / "all_losses_and_configs.txt"
-            print(all_loss_config.read_text(encoding="utf-8"))
+            for evaluation in evaluations:
+                _print_config_and_loss(evaluation)
 
     return summary["previous_results"], summary["pending_configs"]
 
 
+def _print_config_and_loss(evaluation: _ConfigResultForStats) -> None:
+    print(f"Loss: {evaluation.loss}")
+    print(f"Config ID: {evaluation.id}")
+    print(f"Config: {evaluation.config}")
+    print(79 * "-")
+
+
 def _initiate_summary_csv(root_directory: str | Path) -> tuple[Path, Path, Locker]:
     """Initializes a summary CSV and an associated locker for file access control.
 
-- 
2.43.0


From 7d2371a2d90e9dd99fa7d6e6699087423156bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 50/75] fix: a number of the YAML search space may be written
 in every scientific notation

---
 neps/search_spaces/yaml_search_space_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/yaml_search_space_utils.py b/neps/search_spaces/yaml_search_space_utils.py
index ff6d72a..51c3471 100644
--- a/neps/search_spaces/yaml_search_space_utils.py
+++ b/neps/search_spaces/yaml_search_space_utils.py
@@ -46,7 +46,7 @@ def convert_scientific_notation(
         ValueError: If the value is a string and does not represent a valid number.
     """
 
-    e_notation_pattern = r"^-?\d+(\.\d+)?[eE]-?\d+$"
+    e_notation_pattern = r"^[+-]?(\d+(\.\d*)?|\.\d+)[eE][+-]?\d+$"
 
     flag = False  # Flag if e notation was detected
 
-- 
2.43.0


From c370f3b2ea4a61839bee3f40701600d0d9756334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 51/75] fix: a searcher class gets the pipeline space that was
 given as a file or as ConfigSpace

---
 neps/api.py | 58 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/neps/api.py b/neps/api.py
index e69c0f4..7eb6684 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -163,7 +163,7 @@ def run(
     # special case if you load your own optimizer via run_args
     if inspect.isclass(settings.searcher):
         if issubclass(settings.searcher, BaseOptimizer):
-            search_space = SearchSpace(**settings.pipeline_space)
+            search_space = _search_space(settings.pipeline_space)
             # aligns with the behavior of the internal neps searcher which also overwrites
             # its arguments by using searcher_kwargs
             # TODO habe hier searcher kwargs gedroppt, sprich das merging muss davor statt
@@ -255,33 +255,15 @@ def run(
         )
 
 
-def _run_args(
-    searcher_info: dict,
+def _search_space(
     pipeline_space: (
         dict[str, Parameter | CS.ConfigurationSpace]
         | str
         | Path
         | CS.ConfigurationSpace
         | None
-    ) = None,
-    max_cost_total: int | float | None = None,
-    ignore_errors: bool = False,
-    loss_value_on_error: None | float = None,
-    cost_value_on_error: None | float = None,
-    searcher: (
-        Literal[
-            "default",
-            "bayesian_optimization",
-            "random_search",
-            "hyperband",
-            "priorband",
-            "mobster",
-            "asha",
-        ]
-        | BaseOptimizer
-    ) = "default",
-    **searcher_kwargs,
-) -> tuple[BaseOptimizer, dict]:
+    ),
+) -> SearchSpace:
     try:
         # Raising an issue if pipeline_space is None
         if pipeline_space is None:
@@ -306,11 +288,41 @@ def _run_args(
         pipeline_space = new_pipeline_space
 
         # Transform to neps internal representation of the pipeline space
-        pipeline_space = SearchSpace(**pipeline_space)
+        return SearchSpace(**pipeline_space)
     except TypeError as e:
         message = f"The pipeline_space has invalid type: {type(pipeline_space)}"
         raise TypeError(message) from e
 
+
+def _run_args(
+    searcher_info: dict,
+    pipeline_space: (
+        dict[str, Parameter | CS.ConfigurationSpace]
+        | str
+        | Path
+        | CS.ConfigurationSpace
+        | None
+    ) = None,
+    max_cost_total: int | float | None = None,
+    ignore_errors: bool = False,
+    loss_value_on_error: None | float = None,
+    cost_value_on_error: None | float = None,
+    searcher: (
+        Literal[
+            "default",
+            "bayesian_optimization",
+            "random_search",
+            "hyperband",
+            "priorband",
+            "mobster",
+            "asha",
+        ]
+        | BaseOptimizer
+    ) = "default",
+    **searcher_kwargs,
+) -> tuple[BaseOptimizer, dict]:
+    pipeline_space = _search_space(pipeline_space)
+
     # Load the information of the optimizer
     if (
         isinstance(searcher, (str, Path))
-- 
2.43.0


From 12a9ee962bc881f0b815f7a71fa5f6aeab3a4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 52/75] fix: the default of a categorical is its most likely
 value in the prior of model-based searchers

A categorical parameter was taken for an integer one, so that the prior was a truncated
normal distribution over the order of the choices. Its default has at least the mass of
the other choices, also with low confidence and few choices.
---
 neps/sampling/priors.py                           | 13 +++++++++----
 neps/search_spaces/hyperparameters/categorical.py |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index 9a8a687..2b3a7ab 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -135,9 +135,13 @@ class Prior(Sampler, Protocol):
 
             confidence_str = hp.default_confidence_choice
             confidence_score = _mapping[confidence_str]
-            center = (
-                hp._default_index if isinstance(hp, CategoricalParameter) else hp.default
-            )
+            if isinstance(hp, CategoricalParameter):
+                center = hp._default_index
+                # For categoricals this is the mass of the default, where no confidence
+                # means the mass that every choice has.
+                confidence_score += (1 - confidence_score) / len(hp.choices)
+            else:
+                center = hp.default
             centers.append((center, confidence_score))
 
         return Prior.make_centered(domains=domains, centers=centers)
@@ -213,7 +217,8 @@ class Prior(Sampler, Protocol):
                 weight_for_choice = conf
                 remaining_weight = 1 - weight_for_choice
 
-                distributed_weight = remaining_weight / (domain_as_ints.cardinality - 1)
+                n_others = domain_as_ints.cardinality - 1
+                distributed_weight = remaining_weight / n_others if n_others else 0.0
                 weights = torch.full(
                     (domain_as_ints.cardinality,),
                     distributed_weight,
diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index 7c94a02..d121528 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -104,7 +104,7 @@ class CategoricalParameter(
         self._default_index: int | None = (
             self.choices.index(default) if default is not None else None
         )
-        self.domain = Domain.indices(len(self.choices))
+        self.domain = Domain.indices(len(self.choices), is_categorical=True)
 
     @override
     def clone(self) -> Self:
-- 
2.43.0


From 0ca35eeb0c197781d47e543b8bd239cd03897ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 53/75] fix: the confidence in the prior given to a searcher
 holds for integers

---
 neps/optimizers/multi_fidelity/successive_halving.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 6a4aa0f..f801d1b 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -474,6 +474,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 else:
                     confidence = confidence_score["numeric"]
                 self.pipeline_space[k].default_confidence_score = confidence
+                if isinstance(v, IntegerParameter):
+                    # integers are sampled from this
+                    v.float_hp.default_confidence_score = confidence
             elif isinstance(v, CategoricalParameter):
                 if confidence_score is None:
                     confidence = CUSTOM_CATEGORICAL_CONFIDENCE_SCORES[
-- 
2.43.0


From b1dbdf15e5c5b848940f4d84aa7c0044b468f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 54/75] fix: the values of the incumbent become the defaults of
 categoricals as well

---
 neps/search_spaces/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index ea2f072..9d7df7e 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -726,7 +726,7 @@ class SearchSpace(Mapping[str, Any]):
     def set_defaults_to_current_values(self) -> None:
         """Update the configuration/search space to use the current values as defaults."""
         for hp in self.hyperparameters.values():
-            if isinstance(hp, NumericalParameter):
+            if isinstance(hp, NumericalParameter | CategoricalParameter):
                 hp.set_default(hp.value)
 
     def set_hyperparameters_from_dict(  # noqa: C901
-- 
2.43.0


From 89ba15b545b0362ef0a4de34fca792c2456f4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 55/75] fix: neps info-config shows trials that have not been
 started or are running

---
 neps/utils/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index b504bf5..93a1ce9 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -308,13 +308,17 @@ def sample_config(args: argparse.Namespace) -> None:
     pass
 
 
-def convert_timestamp(timestamp: float) -> str:
+def convert_timestamp(timestamp: Optional[float]) -> str:
     """Convert a UNIX timestamp to a human-readable datetime string."""
+    if timestamp is None:
+        return "N/A"
     return datetime.fromtimestamp(timestamp).strftime("%Y-%m-%d %H:%M:%S")
 
 
-def format_duration(seconds: float) -> str:
+def format_duration(seconds: Optional[float]) -> str:
     """Convert duration in seconds to a h:min:sec format."""
+    if seconds is None:
+        return "N/A"
     duration = str(timedelta(seconds=seconds))
     # Remove milliseconds for alignment
     if "." in duration:
-- 
2.43.0


From 535e67f4bd482fd09355f0c4f739ef900dbb42ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:24 +0000
Subject: [PATCH 56/75] fix: neps results works for runs with failed trials,
 which are no incumbents

---
 neps/utils/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index 93a1ce9..8392267 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -548,7 +548,10 @@ def results(args: argparse.Namespace) -> None:
     best_loss = float("inf")
     incumbents = []
     for trial in sorted_trials:
-        if trial.report and trial.report.loss < best_loss:
+        # Failed trials have no loss, or the one assumed on errors
+        if trial.report is None or trial.report.reported_as != "success":
+            continue
+        if trial.report.loss is not None and trial.report.loss < best_loss:
             best_loss = trial.report.loss
             incumbents.append(trial)
 
-- 
2.43.0


From af2e73d7bdf166f2cdc5c625c04ce5c7e77dc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:03 +0000
Subject: [PATCH 57/75] fix: tblogger does not write to the files of an
 interrupted evaluation

---
 neps/plot/tensorboard_eval.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 380ad6b..6a988e1 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -97,7 +97,16 @@ class tblogger:  # noqa: N801
         root_dir = Path(neps_state.location)
         assert root_dir.exists()
 
-        tblogger.config_working_directory = Path(trial.metadata.location)
+        working_directory = Path(trial.metadata.location)
+        if (
+            tblogger.config_writer is not None
+            and tblogger.config_working_directory != working_directory
+        ):
+            # The evaluation this writer belongs to was interrupted
+            tblogger.config_writer.close()
+            tblogger.config_writer = None
+
+        tblogger.config_working_directory = working_directory
         tblogger.config_previous_directory = (
             Path(trial.metadata.previous_trial_location)
             if trial.metadata.previous_trial_location is not None
-- 
2.43.0


From 2b18794cb2535e7280111b518ba7c1cf47ec30fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:09 +0000
Subject: [PATCH 58/75] fix: all logs of an evaluation to tblogger have the
 same name

---
 neps/plot/tensorboard_eval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 6a988e1..38be2fc 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -112,7 +112,6 @@ class tblogger:  # noqa: N801
             if trial.metadata.previous_trial_location is not None
             else None
         )
-        tblogger.config_id = trial.metadata.id
         tblogger.optimizer_dir = root_dir
         tblogger.config = trial.config
 
-- 
2.43.0


From fc0c9745103f34be32915cdb2e761c4185e19b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:12 +0000
Subject: [PATCH 59/75] fix: the trajectory of tblogger is written to the
 directory of the current run

---
 neps/plot/tensorboard_eval.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 38be2fc..a7bdac8 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -150,7 +150,7 @@ class tblogger:  # noqa: N801
             )
 
     @staticmethod
-    def end_of_config(trial: Trial) -> None:  # noqa: ARG004
+    def end_of_config(trial: Trial) -> None:
         """Closes the writer."""
         if tblogger.config_writer:
             # Close and reset previous config writers for consistent logging.
@@ -158,7 +158,12 @@ class tblogger:  # noqa: N801
             tblogger.config_writer.close()
             tblogger.config_writer = None
 
-        if tblogger.write_incumbent:
+        # Only for the evaluation that has asked for it
+        write_incumbent = tblogger.write_incumbent and (
+            tblogger.config_working_directory == Path(trial.metadata.location)
+        )
+        tblogger.write_incumbent = None
+        if write_incumbent:
             tblogger._tracking_incumbent_api()
 
     @staticmethod
@@ -450,6 +455,7 @@ class tblogger:  # noqa: N801
 
         tblogger.summary_writer.flush()
         tblogger.summary_writer.close()
+        tblogger.summary_writer = None
 
     @staticmethod
     def disable() -> None:
-- 
2.43.0


From 656acde20a51a417b91f31670458707bbd6dcacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:20 +0000
Subject: [PATCH 60/75] fix: neps.plot works for runs with failed evaluations

---
 neps/plot/read_results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 06ff3f1..00207ab 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -62,9 +62,9 @@ def process_seed(
             else:
                 config_cost = config_result.metadata["time_end"] - global_start
 
-        # TODO(eddiebergman): Assumes it never crashed and there's a loss available,
-        # not fixing now but it should be addressed
-        losses.append(config_result.result["loss"])  # type: ignore
+        # A failed evaluation has no loss and does not improve the incumbent
+        loss = config_result.loss
+        losses.append(float("inf") if loss == "error" else loss)
         costs.append(config_cost)
 
     return list(np.minimum.accumulate(losses)), costs, max_cost
-- 
2.43.0


From 1a095c0fc56228719ff54460ba93798b86537112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:44 +0000
Subject: [PATCH 61/75] fix: neps.plot subtracts the costs of continued
 configurations if asked to

---
 neps/plot/read_results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/plot/read_results.py b/neps/plot/read_results.py
index 00207ab..8bf19f9 100644
--- a/neps/plot/read_results.py
+++ b/neps/plot/read_results.py
@@ -56,9 +56,9 @@ def process_seed(
                 # calculates continuation costs for MF algorithms NOTE: assumes that
                 # all recorded evaluations are black-box evaluations where
                 # continuations or freeze-thaw was not accounted for during optimization
-                if "previous_config_id" in config_result.metadata:
-                    previous_config_id = config_result.metadata["previous_config_id"]
-                    config_cost -= get_cost(previous_config_id)
+                previous_trial_id = config_result.metadata["previous_trial_id"]
+                if previous_trial_id is not None:
+                    config_cost -= get_cost(previous_trial_id)
             else:
                 config_cost = config_result.metadata["time_end"] - global_start
 
-- 
2.43.0


From 8d572fde63e133a746ab876979ea975bfc79f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:11 +0000
Subject: [PATCH 62/75] fix: neps.plot averages runs with different numbers of
 evaluations

---
 neps/plot/plotting.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/neps/plot/plotting.py b/neps/plot/plotting.py
index e0cc2ea..35caf22 100644
--- a/neps/plot/plotting.py
+++ b/neps/plot/plotting.py
@@ -122,11 +122,6 @@ def _interpolate_time(
     x_range: tuple | None = None,
     scale_x: float | None = None,
 ) -> pd.DataFrame:
-    if isinstance(incumbents, list):
-        incumbents = np.array(incumbents)
-    if isinstance(costs, list):
-        costs = np.array(costs)
-
     df_dict = {}
 
     for i, _ in enumerate(incumbents):
-- 
2.43.0


From 54c01fd5a1c1d5da259f63ab90fb79c2c40a1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 63/75] fix: evaluations may change the working directory of
 the process

---
 neps/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/api.py b/neps/api.py
index 7eb6684..5944f63 100644
--- a/neps/api.py
+++ b/neps/api.py
@@ -222,12 +222,15 @@ def run(
             Path(settings.root_directory) / f"dev_{settings.development_stage_id}"
         )
 
+    # The evaluations may change the working directory of the process
+    settings.root_directory = Path(settings.root_directory).absolute()
+
     _launch_runtime(
         evaluation_fn=settings.run_pipeline,
         optimizer=searcher_instance,
         optimizer_info=searcher_info,
         max_cost_total=settings.max_cost_total,
-        optimization_dir=Path(settings.root_directory),
+        optimization_dir=settings.root_directory,
         max_evaluations_total=settings.max_evaluations_total,
         max_evaluations_for_worker=settings.max_evaluations_per_run,
         continue_until_max_evaluation_completed=settings.continue_until_max_evaluation_completed,
-- 
2.43.0


From 186d7bea910fe3082955c99c8aeca3276352ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 64/75] fix: linear weights of PriorBand work with early
 stopping rates

---
 neps/optimizers/multi_fidelity_prior/priorband.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index d026017..260ad2b 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -191,7 +191,7 @@ class PriorBandBase:
                 stop=w_prior_max_rung,
                 endpoint=True,
                 num=num_rungs,
-            )[rung]
+            )[rung - self.min_rung]
         elif self.prior_weight_type == "50-50":
             _w_random = 1
             _w_prior = 1
-- 
2.43.0


From 7d1fa530f8eb92f0a309453b224c8e032d24cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:18 +0000
Subject: [PATCH 65/75] fix: costs of zero and models that predict negative
 costs do not break the search

---
 .../acquisition_functions/cost_cooling.py                  | 7 ++++++-
 neps/optimizers/bayesian_optimization/models/gp.py         | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py b/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
index 4095d6f..73366dd 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py
@@ -21,9 +21,12 @@ def apply_cost_cooling(
     acq: AcquisitionFunction,
     cost_model: GPyTorchModel,
     alpha: float,
+    min_cost: float | None = None,
 ) -> Tensor:
-    # NOTE: We expect **positive** costs from model
+    # NOTE: We expect **positive** costs from model, unless there is a `min_cost`
     cost = cost_model.posterior(X).mean
+    if min_cost is not None:
+        cost = cost.clamp_min(min_cost)
     cost = cost.squeeze(dim=-1) if cost_model.num_outputs == 1 else cost.sum(dim=-1)
 
     if acq._log:
@@ -42,6 +45,7 @@ def cost_cooled_acq(
     acq_fn: AcquisitionFunction,
     model: GPyTorchModel,
     used_budget_percentage: float,
+    min_cost: float | None = None,
 ) -> WeightedAcquisition:
     assert 0 <= used_budget_percentage <= 1
     return WeightedAcquisition(
@@ -50,5 +54,6 @@ def cost_cooled_acq(
             apply_cost_cooling,
             cost_model=model,
             alpha=1 - used_budget_percentage,
+            min_cost=min_cost,
         ),
     )
diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 5cbc619..3d98685 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -381,6 +381,12 @@ def fit_and_acquire_from_gp(
             x_train_cost = x_train
             y_train_cost = costs
 
+        # The weighting requires positive costs. The model of costs that are not on a log
+        # scale may predict others, and evaluations may have been free.
+        positive = y_train_cost[y_train_cost > 0]
+        min_cost = positive.min().item() if len(positive) > 0 else 1.0
+        y_train_cost = y_train_cost.clamp_min(min_cost)
+
         if costs_on_log_scale:
             transform = ChainedOutcomeTransform(
                 log=Log(),
@@ -402,6 +408,7 @@ def fit_and_acquire_from_gp(
             acq_fn=acquisition,
             model=cost_gp,
             used_budget_percentage=cost_percentage_used,
+            min_cost=None if costs_on_log_scale else min_cost,
         )
 
     _n = n_candidates_required if n_candidates_required is not None else 1
-- 
2.43.0


From c58a34d080b94cde1dd14ff56235d46d5786ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 66/75] fix: ifBO steps through the fidelity in steps of
 step_size

The indices of the levels left out the last one, so that levels were skipped and
evaluations continued ones which do not exist. Rounding errors no longer lose a step.
---
 neps/optimizers/multi_fidelity/ifbo.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 3981189..cb365ce 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -58,8 +58,17 @@ def _adjust_pipeline_space_to_match_stepsize(
     # > x = n*k + r
     # > n = x // k
     # > r = x - n*k
+    # We allow for rounding errors, e.g. such that there are 9 steps of 0.1 in (0.1, 1.0)
+    if isinstance(fidelity, IntegerParameter):
+        if int(step_size) != step_size:
+            raise ValueError(
+                f"Step size ({step_size}) must be an integer for the integer"
+                f" fidelity {fidelity}."
+            )
+        step_size = int(step_size)
+
     x = fidelity.upper - fidelity.lower
-    n = int(x // step_size)
+    n = int(x / step_size + 1e-6)
 
     if n <= 0:
         raise ValueError(
@@ -67,13 +76,13 @@ def _adjust_pipeline_space_to_match_stepsize(
             "Considering lowering this parameter to ifBO."
         )
 
-    r = x - n * step_size
+    r = max(x - n * step_size, 0)
     new_lower = fidelity.lower + r
     new_fid = fidelity.__class__(
         lower=new_lower,
         upper=fidelity.upper,
         log=fidelity.log,
-        default=fidelity.default,
+        default=None if fidelity.default is None else max(fidelity.default, new_lower),
         is_fidelity=True,
         default_confidence=fidelity.default_confidence_choice,
     )
@@ -161,8 +170,9 @@ class IFBO(BaseOptimizer):
         # Domain in which we should pass budgets to ifbo model
         self._budget_domain = Domain.floating(1 / self._max_budget, 1)
 
-        # Domain from which we assign an index to each budget
-        self._budget_ix_domain = Domain.indices(fid_bins)
+        # Domain from which we assign an index to each budget, both the lowest and the
+        # highest fidelity have one.
+        self._budget_ix_domain = Domain.indices(fid_bins + 1)
 
     @override
     def ask(
-- 
2.43.0


From ee1f0f59a2bc14529227c87e651f89a73d30bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 67/75] fix: ifBO handles a single configuration to continue

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 680c10b..a04c341 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -329,11 +329,13 @@ class FTPFNSurrogate:
     def _get_logits(
         self, train_x: torch.Tensor, train_y: torch.Tensor, test_x: torch.Tensor
     ) -> torch.Tensor:
-        return self.ftpfn.model(
+        logits = self.ftpfn.model(
             _cast_tensor_shapes(train_x),
             _cast_tensor_shapes(train_y),
             _cast_tensor_shapes(test_x),
         )
+        # The batch dimension is not needed, keep one row for each row of `test_x`
+        return logits.reshape(-1, logits.shape[-1])
 
     @torch.no_grad()  # type: ignore
     def get_mean_performance(
@@ -342,7 +344,7 @@ class FTPFNSurrogate:
         train_y: torch.Tensor,
         test_x: torch.Tensor,
     ) -> torch.Tensor:
-        logits = self._get_logits(train_x, train_y, test_x).squeeze()
+        logits = self._get_logits(train_x, train_y, test_x)
         return self.ftpfn.model.criterion.mean(logits)
 
     @torch.no_grad()  # type: ignore
@@ -354,7 +356,7 @@ class FTPFNSurrogate:
         y_best: torch.Tensor | float,
     ) -> torch.Tensor:
         logits = self._get_logits(train_x, train_y, test_x)
-        return self.ftpfn.model.criterion.pi(logits.squeeze(), best_f=y_best)
+        return self.ftpfn.model.criterion.pi(logits, best_f=y_best)
 
     @torch.no_grad()  # type: ignore
     def get_ei(
@@ -365,7 +367,7 @@ class FTPFNSurrogate:
         y_best: torch.Tensor | float,
     ) -> torch.Tensor:
         logits = self._get_logits(train_x, train_y, test_x)
-        return self.ftpfn.model.criterion.ei(logits.squeeze(), best_f=y_best)
+        return self.ftpfn.model.criterion.ei(logits, best_f=y_best)
 
     @torch.no_grad()  # type: ignore
     def get_lcb(
-- 
2.43.0


From 75bf4a7379883dfc0af1d94fd79cfbe86c2163f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 68/75] fix: budgets of ifBO are relative to the highest
 fidelity for every range

---
 neps/optimizers/multi_fidelity/ifbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index cb365ce..4f4b566 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -168,7 +168,7 @@ class IFBO(BaseOptimizer):
         self._fid_domain = space.fidelity.domain
 
         # Domain in which we should pass budgets to ifbo model
-        self._budget_domain = Domain.floating(1 / self._max_budget, 1)
+        self._budget_domain = Domain.floating(self._min_budget / self._max_budget, 1)
 
         # Domain from which we assign an index to each budget, both the lowest and the
         # highest fidelity have one.
@@ -231,7 +231,7 @@ class IFBO(BaseOptimizer):
         # NOTE: Can't really abstract this, requires knowledge that:
         # 1. The encoding is such that the loss is 1 - loss
         # 2. The budget is the second column
-        # 3. The budget is encoded between 1/max_fid and 1
+        # 3. The budget is encoded between min_fid/max_fid and 1
         rng = np.random.RandomState(len(trials))
         # Cast the a random budget index into the ftpfn budget domain
         horizon_increment = self._budget_domain.cast_one(
-- 
2.43.0


From c087619cf5212bfea40a3c7c76f59a8ee448c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 69/75] fix: ifBO does not continue a configuration which is
 being evaluated

---
 neps/optimizers/multi_fidelity/ifbo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 4f4b566..e015ae2 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -228,6 +228,10 @@ class IFBO(BaseOptimizer):
         else:
             not_pending_X = X
 
+        # We can not continue those which are currently evaluated at a higher budget
+        is_pending = torch.isin(not_pending_X[:, 0], X[pending_mask][:, 0])
+        continuation_X = not_pending_X[~is_pending]
+
         # NOTE: Can't really abstract this, requires knowledge that:
         # 1. The encoding is such that the loss is 1 - loss
         # 2. The budget is the second column
@@ -262,7 +266,7 @@ class IFBO(BaseOptimizer):
             # Acquisition function
             acq_function=_mfpi_random,
             # Which acquisition samples to consider for continuation
-            continuation_samples=not_pending_X,
+            continuation_samples=continuation_X,
             # How to generate some initial samples
             initial_samplers=[
                 (Sampler.sobol(ndim=sample_dims), 512),
-- 
2.43.0


From 549e7d6ec0a21296d6d6bc2097690be0c652c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 70/75] fix: ifBO considers crashed evaluations the worst and
 not the best ones

---
 .../bayesian_optimization/models/ftpfn.py     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index a04c341..002227e 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import math
 from collections.abc import Callable, Mapping
 from pathlib import Path
 from typing import TYPE_CHECKING, Any
@@ -114,7 +115,7 @@ def encode_ftpfn(
     *,
     device: torch.device | None = None,
     dtype: torch.dtype = FTPFN_DTYPE,
-    error_value: float = 0.0,
+    error_value: float = 1.0,
     pending_value: float = torch.nan,
 ) -> tuple[torch.Tensor, torch.Tensor]:
     """Encode the trials into a format that the FTPFN model can understand.
@@ -127,8 +128,8 @@ def encode_ftpfn(
     !!! warning "Error values"
 
         The FTPFN model requires that all loss values lie in the interval [0, 1].
-        By default, using the value of `error_value=0.0`, we encode crashed configurations
-        as having an error value of 0.
+        By default, using the value of `error_value=1.0`, we encode crashed configurations
+        as having the worst possible loss of 1. The same holds for a loss of nan.
 
     Args:
         trials: The trials to encode
@@ -169,13 +170,14 @@ def encode_ftpfn(
 
     # TODO: Document that it's on the user to ensure these are already all bounded
     # We could possibly include some bounded transform to assert this.
+    def _loss(trial: Trial) -> float:
+        if trial.report is None:
+            return pending_value
+        loss = trial.report.loss
+        return error_value if loss is None or math.isnan(loss) else loss
+
     minimize_ys = torch.tensor(
-        [
-            pending_value
-            if trial.report is None
-            else (error_value if trial.report.loss is None else trial.report.loss)
-            for trial in trials.values()
-        ],
+        [_loss(trial) for trial in trials.values()],
         device=device,
         dtype=dtype,
     )
-- 
2.43.0


From d978116a23fd1367db12329e8052c3bd76469ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 71/75] fix: ifBO refuses losses out of range also while others
 are evaluated

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 002227e..335101d 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -181,7 +181,8 @@ def encode_ftpfn(
         device=device,
         dtype=dtype,
     )
-    if minimize_ys.max() > 1 or minimize_ys.min() < 0:
+    # Comparisons with nan are always false, such that pending values are accepted
+    if (minimize_ys > 1).any() or (minimize_ys < 0).any():
         raise RuntimeError(
             "ifBO requires that all loss values reported lie in the interval [0, 1]"
             " but recieved loss value outside of that range!"
-- 
2.43.0


From 65bc6bec4bcce31e215f0111965e088ef42319a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 72/75] fix: ifBO proposes configurations while none of the
 evaluations is finished

---
 neps/optimizers/multi_fidelity/ifbo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e015ae2..6d856e6 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -215,8 +215,16 @@ class IFBO(BaseOptimizer):
             pending_value=torch.nan,
         )
 
-        # Fantasize if needed
         pending_mask = torch.isnan(y)
+        if pending_mask.all():
+            # There is nothing to fit the surrogate to
+            sampler = self._prior or Sampler.uniform(ndim=self._config_encoder.ncols)
+            sample = sampler.sample(1, to=self._config_encoder.domains)
+            config = self._config_encoder.decode(sample)[0]
+            config[self._fidelity_name] = self._min_budget
+            return SampledConfig(id=f"{new_id}_0", config=config)
+
+        # Fantasize if needed
         if pending_mask.any():
             not_pending_mask = ~pending_mask
             not_pending_X = X[not_pending_mask]
-- 
2.43.0


From 4ed7e7d00b5e60358451ae72188d753c9969cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 73/75] fix: configurations continued by ifBO do not change due
 to rounding

---
 neps/optimizers/multi_fidelity/ifbo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 6d856e6..c77d1ce 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -301,9 +301,11 @@ class IFBO(BaseOptimizer):
         next_ix = budget_ix + 1
         next_fid = self._fid_domain.cast_one(next_ix, frm=self._budget_ix_domain)
 
-        config[self._fidelity_name] = next_fid
+        # The decoded values are subject to rounding, the configuration has to stay the same
+        previous_id = f"{_id}_{budget_ix}"
+        config = {**trials[previous_id].config, self._fidelity_name: next_fid}
         return SampledConfig(
             id=f"{_id}_{next_ix}",
             config=config,
-            previous_config_id=f"{_id}_{budget_ix}",
+            previous_config_id=previous_id,
         )
-- 
2.43.0


From 08185a35c3fb80b3279f3f2a82599eaa2538aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 74/75] fix: ifBO recognizes the highest fidelity of fine
 grained fidelities

---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 335101d..841efdc 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -162,7 +162,8 @@ def encode_ftpfn(
     train_fidelities = torch.tensor(
         [t.config[space.fidelity_name] for t in selected.values()],
         device=device,
-        dtype=dtype,
+        # The highest fidelity must be recognized as such, despite rounding
+        dtype=torch.float64,
     )
     train_budgets = budget_domain.cast(
         train_fidelities, frm=space.fidelity.domain, dtype=dtype
-- 
2.43.0


From 0442a7521ebaf54fad4bc83c593049503f5d4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 75/75] fix: priors of categoricals encoded in the unit
 interval stay in their domain

---
 neps/sampling/priors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index 2b3a7ab..115c4c6 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -232,7 +232,8 @@ class Prior(Sampler, Protocol):
                     distribution=torch.distributions.Categorical(
                         probs=weights, validate_args=False
                     ),
-                    domain=domain,
+                    # It samples the indices of the choices
+                    domain=domain_as_ints,
                 )
                 distributions.append(dist)
                 continue
-- 
2.43.0

