From 300054c3e349640bf85e66cadbdee54b6cb566ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 01/67] fix: keep tests whose case id contains '::' in their
 own loadscope group

A case id such as test_addr[::1] was read as a class scope of its own, so the
functions of one file could be split over several workers.
---
 src/scheduler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3307f68..84ea834 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -206,7 +206,12 @@ impl Scheduler for NoScheduler {
 fn extract_scope(test_path: &str) -> String {
     // Extract module/class scope from test path
     // Format: path/to/file.py::TestClass::test_method or path/to/file.py::test_function
-    let parts: Vec<&str> = test_path.split("::").collect();
+    // A case ID may itself contain "::" (e.g. test_addr[::1]), so only what precedes it names the scope.
+    let name_start = test_path.find("::").unwrap_or(test_path.len());
+    let scope_end = test_path[name_start..]
+        .find('[')
+        .map_or(test_path.len(), |i| name_start + i);
+    let parts: Vec<&str> = test_path[..scope_end].split("::").collect();
     match parts.len() {
         0 => test_path.to_string(), // Shouldn't happen, but handle gracefully
         1 => parts[0].to_string(),  // Just file path
-- 
2.43.0


From 775475b9811d2a445c1574134075418dc44cfa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 02/67] fix: a native run fails when a worker ends without a
 complete, matching report

---
 src/native_runner.rs | 69 +++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 4d0f615..16b99f0 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -157,7 +157,7 @@ fn print_test_results(label: &str, results: &[TestResult]) {
     }
 }
 
-fn print_summary(results: &AggregatedResults) {
+fn print_summary(results: &AggregatedResults, success: bool) {
     println!();
     println!("================================ SUMMARY ================================");
 
@@ -181,11 +181,7 @@ fn print_summary(results: &AggregatedResults) {
         parts.push(format!("{} skipped", results.skipped));
     }
 
-    let status = if results.failed > 0 || results.error > 0 {
-        "FAILED"
-    } else {
-        "PASSED"
-    };
+    let status = if success { "PASSED" } else { "FAILED" };
 
     println!(
         "========== {} {} in {:.2}s ==========",
@@ -203,7 +199,7 @@ fn run_worker(
     files: &[PathBuf],
     python_classes: &[String],
     python_functions: &[String],
-) -> Result<(), String> {
+) -> Result<bool, String> {
     let mut cmd = Command::new(python);
     cmd.arg("-m")
         .arg("rtest.worker")
@@ -259,7 +255,7 @@ fn run_worker(
         }
     }
 
-    Ok(())
+    Ok(output.status.success())
 }
 
 pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) -> i32 {
@@ -310,11 +306,39 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
     }
 
     let mut worker_errors = Vec::new();
-    for (i, handle) in handles.into_iter().enumerate() {
-        match handle.join() {
-            Ok(Ok(())) => {}
-            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
-            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
+    let mut all_results = Vec::new();
+    for (i, (handle, output_file)) in handles.into_iter().zip(&output_files).enumerate() {
+        let worker_success = match handle.join() {
+            Ok(Ok(success)) => success,
+            Ok(Err(e)) => {
+                worker_errors.push(format!("Worker {}: {}", i, e));
+                // Whatever the worker reported before crashing is still worth showing
+                if !output_file.exists() {
+                    continue;
+                }
+                true
+            }
+            Err(_) => {
+                worker_errors.push(format!("Worker {} panicked", i));
+                continue;
+            }
+        };
+
+        // A worker that ended without a complete report may have run anything or nothing
+        match parse_results_file(output_file) {
+            Ok(results) => {
+                let has_failures = results
+                    .iter()
+                    .any(|r| r.outcome != "passed" && r.outcome != "skipped");
+                if !worker_success && !has_failures {
+                    worker_errors.push(format!(
+                        "Worker {}: exited with code 1 but reported no failure",
+                        i
+                    ));
+                }
+                all_results.push(results);
+            }
+            Err(e) => worker_errors.push(format!("Worker {}: {}", i, e)),
         }
     }
 
@@ -322,25 +346,16 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
         eprintln!("{}", error);
     }
 
-    let mut all_results = Vec::new();
-    for output_file in &output_files {
-        if output_file.exists() {
-            match parse_results_file(output_file) {
-                Ok(results) => all_results.push(results),
-                Err(e) => eprintln!("Warning: {}", e),
-            }
-        }
-    }
-
     let aggregated = aggregate_results(all_results);
-    print_summary(&aggregated);
+    let success = aggregated.failed == 0 && aggregated.error == 0 && worker_errors.is_empty();
+    print_summary(&aggregated, success);
 
     // TempDir is automatically cleaned up when dropped
 
-    if aggregated.failed > 0 || aggregated.error > 0 || !worker_errors.is_empty() {
-        1
-    } else {
+    if success {
         0
+    } else {
+        1
     }
 }
 
-- 
2.43.0


From bfcbb588c6e134f4411e28ca7b2ef1169414a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 03/67] fix: a test or import that exits no longer takes the
 whole worker with it

---
 python/rtest/worker/runner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 5424810..e62cba7 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -232,7 +232,9 @@ def _run_single_test(test_case: TestCase) -> TestResult:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
-    except Exception as e:
+    except KeyboardInterrupt:
+        raise
+    except BaseException as e:  # SystemExit, pytest outcomes, ... must not end the other tests
         outcome = "error"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
@@ -295,7 +297,9 @@ def run_tests(
             loaded_modules.append(module_name)
             test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
             all_test_cases.extend(test_cases)
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:  # SystemExit, pytest outcomes, ... must not hide the other files
             try:
                 rel_path = str(file_path.relative_to(root))
             except ValueError:
-- 
2.43.0


From 01499da0d6a35242f5b737258612e13853d521ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 04/67] fix: a test that closes sys.stdout or sys.stderr no
 longer ends the worker

---
 python/rtest/worker/runner.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index e62cba7..423b285 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -41,6 +41,13 @@ class TestCase:
     test_class: type | None = None
 
 
+class _CaptureStream(io.StringIO):
+    """In-memory stream that survives being closed by the test writing to it."""
+
+    def close(self) -> None:
+        pass
+
+
 def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
     """Import a Python module from a file path."""
     try:
@@ -200,8 +207,8 @@ def _run_single_test(test_case: TestCase) -> TestResult:
             error={"reason": test_case.skip_reason} if test_case.skip_reason else None,
         )
 
-    stdout_capture = io.StringIO()
-    stderr_capture = io.StringIO()
+    stdout_capture = _CaptureStream()
+    stderr_capture = _CaptureStream()
 
     outcome = "passed"
     error_info: dict[str, str] | None = None
-- 
2.43.0


From 3e0e9dbb9a9562edbb7f4fe067177abc1bc3035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 05/67] fix: lone surrogates in output, ids or tracebacks no
 longer spoil the worker's report

---
 python/rtest/worker/runner.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 423b285..6cd841b 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -259,6 +259,15 @@ def _run_single_test(test_case: TestCase) -> TestResult:
     )
 
 
+def _encodable(value: object) -> object:
+    """Escape lone surrogates, which JSON readers reject, in every string of a result."""
+    if isinstance(value, str):
+        return value.encode("utf-8", "backslashreplace").decode("utf-8")
+    if isinstance(value, dict):
+        return {key: _encodable(item) for key, item in value.items()}
+    return value
+
+
 def run_tests(
     root: Path,
     output_file: Path,
@@ -337,7 +346,7 @@ def run_tests(
     output_file.parent.mkdir(parents=True, exist_ok=True)
     with output_file.open("w") as f:
         for result in results:
-            result_dict: dict[str, object] = asdict(result)
+            result_dict: dict[str, object] = {k: _encodable(v) for k, v in asdict(result).items()}
             f.write(json.dumps(result_dict) + "\n")
 
     has_failures = any(r.outcome in ("failed", "error") for r in results)
-- 
2.43.0


From dd8537d1048526c6b9d418986de776563cd52dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 06/67] fix: call a test method by the name it was discovered
 under

---
 python/rtest/worker/runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 6cd841b..cb19751 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -39,6 +39,7 @@ class TestCase:
     skip: bool = False
     skip_reason: str = ""
     test_class: type | None = None
+    method_name: str = ""
 
 
 class _CaptureStream(io.StringIO):
@@ -191,6 +192,7 @@ def _discover_tests_in_module(
                                 skip=skip,
                                 skip_reason=skip_reason,
                                 test_class=class_obj,
+                                method_name=method_name,
                             )
                         )
 
@@ -225,7 +227,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                 if setup is not None:
                     setup()
                 try:
-                    bound_method: Callable[..., object] = getattr(instance, test_case.func.__name__)
+                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
                     bound_method(**test_case.kwargs)
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
-- 
2.43.0


From 3872a44d8768463760cb4105488bb3e23c004303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 07/67] fix: async and generator tests, whose bodies never ran,
 are no longer reported as passed

---
 python/rtest/worker/runner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index cb19751..5c526c1 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -199,6 +199,15 @@ def _discover_tests_in_module(
     return test_cases
 
 
+def _call_test(test: Callable[..., object], kwargs: dict[str, object]) -> None:
+    """Call a test; a coroutine or generator test, whose body a plain call never runs, is an error."""
+    result = test(**kwargs)
+    if inspect.iscoroutine(result):
+        result.close()
+    if inspect.iscoroutine(result) or inspect.isgeneratorfunction(test) or inspect.isasyncgenfunction(test):
+        raise TypeError(f"the body of {test.__name__} did not run: async and generator tests are not supported")
+
+
 def _run_single_test(test_case: TestCase) -> TestResult:
     """Execute a single test case and capture results."""
     if test_case.skip:
@@ -228,7 +237,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                     setup()
                 try:
                     bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
-                    bound_method(**test_case.kwargs)
+                    _call_test(bound_method, test_case.kwargs)
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                         instance, "tearDown", None
@@ -236,7 +245,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                     if teardown is not None:
                         teardown()
             else:
-                test_case.func(**test_case.kwargs)
+                _call_test(test_case.func, test_case.kwargs)
     except AssertionError as e:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
-- 
2.43.0


From 888fec0a8c71e31f54b1bbe91f5910fc51487af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 08/67] fix: run class methods that are tests, as collection
 lists them

---
 python/rtest/worker/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 5c526c1..3663696 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -172,7 +172,7 @@ def _discover_tests_in_module(
                     if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):
                         continue
                     method_obj: object = getattr(class_obj, method_name)
-                    if not inspect.isfunction(method_obj):
+                    if not (inspect.isfunction(method_obj) or inspect.ismethod(method_obj)):
                         continue
                     method_func: FunctionType = method_obj  # type: ignore[assignment]
                     seen_methods.add(method_name)
-- 
2.43.0


From c62b869abba90d7f64420413512bba26f3bbd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 09/67] fix: honour pytest skip marks given as a single mark or
 inherited past another mark

---
 python/rtest/worker/runner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 3663696..a38ff29 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -88,6 +88,16 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
+def _pytest_marks(obj: object) -> list[object]:
+    """The pytest marks of a function, or of a class and the classes it inherits from."""
+    holders: tuple[object, ...] = inspect.getmro(obj) if inspect.isclass(obj) else (obj,)
+    marks: list[object] = []
+    for holder in holders:
+        own = vars(holder).get("pytestmark", []) if inspect.isclass(holder) else getattr(holder, "pytestmark", [])
+        marks.extend(own if isinstance(own, (list, tuple)) else [own])
+    return marks
+
+
 def _is_skipped(obj: object) -> tuple[bool, str]:
     """Check if an object has the skip marker (rtest or pytest)."""
     from rtest.mark import SKIP_DEPRECATION_MSG
@@ -99,8 +109,7 @@ def _is_skipped(obj: object) -> tuple[bool, str]:
         return True, skip_reason_attr
 
     # Check pytest marker (with deprecation warning)
-    pytest_marks: list[object] = getattr(obj, "pytestmark", [])
-    for pytest_mark in pytest_marks:
+    for pytest_mark in _pytest_marks(obj):
         if getattr(pytest_mark, "name", None) == "skip":
             func_name: str = str(getattr(obj, "__name__", str(obj)))
             warnings.warn(
-- 
2.43.0


From 979369eb8048788eb98c2c474b17748ab59e2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 10/67] fix: decorating with cases no longer changes the cases
 of a base class or wrapped function

---
 python/rtest/mark.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 5cf79e3..098b2d4 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -108,10 +108,9 @@ class Mark:
         )
 
         def decorator(func: F) -> F:
+            # A new list: the existing one may be shared with a base class or a wrapped function
             cases_list: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", None) or []
-            if not getattr(func, "__rtest_cases__", None):
-                func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
-            cases_list.append(spec)
+            func.__rtest_cases__ = [*cases_list, spec]  # type: ignore[union-attr]
             return func
 
         return decorator
-- 
2.43.0


From aa3f92b6d5954c1f4cc1bd176dc1d27c6c25f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 11/67] fix: case ids of one test are pairwise distinct

---
 python/rtest/mark.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 098b2d4..0b60ad5 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -148,6 +148,7 @@ mark = Mark()
 
 def _deduplicate_ids(ids: list[str]) -> list[str]:
     """Deduplicate IDs by adding suffixes _1, _2, etc. for duplicates."""
+    taken: set[str] = set(ids)
     seen: dict[str, int] = {}
     result: list[str] = []
 
@@ -156,8 +157,13 @@ def _deduplicate_ids(ids: list[str]) -> list[str]:
             seen[id_] = 0
             result.append(id_)
         else:
+            # Skip suffixes that would collide with another ID
             seen[id_] += 1
-            result.append(f"{id_}_{seen[id_]}")
+            while f"{id_}_{seen[id_]}" in taken:
+                seen[id_] += 1
+            unique_id = f"{id_}_{seen[id_]}"
+            taken.add(unique_id)
+            result.append(unique_id)
 
     return result
 
@@ -306,7 +312,9 @@ def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
             merged_kwargs.update(case.kwargs)
         result.append(ExpandedCase("-".join(tokens), merged_kwargs))
 
-    return result
+    # Joined ids can coincide even though those of each decorator are unique: "a-b" + "c" and "a" + "b-c"
+    unique_ids = _deduplicate_ids([case.case_id for case in result])
+    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
 
 
 def get_case_nodeid_suffix(case_id: str) -> str:
-- 
2.43.0


From 4828c24459b6d833c33294ce054add84d3f41246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 12/67] fix: parallel execution with zero workers runs the
 tests instead of silently passing

---
 src/runner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runner.rs b/src/runner.rs
index 454a5fd..75e478e 100644
--- a/src/runner.rs
+++ b/src/runner.rs
@@ -62,6 +62,9 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         }
     };
 
+    // Zero workers would run nothing and still report success
+    let worker_count = config.worker_count.max(1);
+
     if config.use_subprojects {
         let test_groups = subproject::group_tests_by_subproject(config.rootpath, &test_nodes);
 
@@ -76,7 +79,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
             };
 
             let scheduler = create_scheduler(distribution_mode.clone());
-            let test_batches = scheduler.distribute_tests(adjusted_tests, config.worker_count);
+            let test_batches = scheduler.distribute_tests(adjusted_tests, worker_count);
 
             for batch in test_batches {
                 if !batch.is_empty() {
@@ -119,7 +122,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         overall_exit_code
     } else {
         let scheduler = create_scheduler(distribution_mode);
-        let test_batches = scheduler.distribute_tests(test_nodes, config.worker_count);
+        let test_batches = scheduler.distribute_tests(test_nodes, worker_count);
 
         if test_batches.is_empty() {
             log::info!("No test batches to execute.");
-- 
2.43.0


From 154cabe631ac8c8e3088c520a119ae8e8e57b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 13/67] fix: subproject grouping keeps and correctly
 re-addresses symlinked tests

---
 src/subproject.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 5b76531..8ca0f4c 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -1,6 +1,6 @@
 //! Subproject detection and test grouping functionality.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 
 /// Splits a test node ID into file path and test parts
@@ -17,33 +17,15 @@ pub fn group_tests_by_subproject(
     test_nodes: &[String],
 ) -> HashMap<PathBuf, Vec<String>> {
     let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();
-    let mut subproject_roots: HashSet<PathBuf> = HashSet::new();
 
     for test_node in test_nodes {
         let subproject_root = find_subproject_root(rootpath, test_node);
-        let is_subproject = subproject_root != *rootpath;
-
-        if is_subproject {
-            subproject_roots.insert(subproject_root.clone());
-        }
-
         groups
             .entry(subproject_root)
             .or_default()
             .push(test_node.clone());
     }
 
-    if let Some(root_tests) = groups.get_mut(rootpath) {
-        root_tests.retain(|test_node| {
-            let (file_path, _) = split_test_node(test_node);
-            let test_path = rootpath.join(file_path);
-
-            !subproject_roots
-                .iter()
-                .any(|subproject| test_path.starts_with(subproject))
-        });
-    }
-
     groups
 }
 
@@ -86,8 +68,16 @@ pub fn make_test_paths_relative(
             let (file_path, test_part) = split_test_node(node);
 
             let absolute_path = old_base.join(file_path);
-            match absolute_path.strip_prefix(new_base) {
-                Ok(relative_path) => {
+            // A symlinked test belongs to the subproject of the file it points to
+            let resolved_path = absolute_path.canonicalize().ok();
+            let relative_path = absolute_path.strip_prefix(new_base).ok().or_else(|| {
+                resolved_path
+                    .as_deref()
+                    .and_then(|path| path.strip_prefix(new_base).ok())
+            });
+
+            match relative_path {
+                Some(relative_path) => {
                     let mut new_node = relative_path.to_string_lossy().into_owned();
                     if let Some(test) = test_part {
                         new_node.push_str("::");
@@ -95,7 +85,7 @@ pub fn make_test_paths_relative(
                     }
                     new_node
                 }
-                Err(_) => node.clone(),
+                None => node.clone(),
             }
         })
         .collect()
-- 
2.43.0


From 1aef8faf55c0fd83d53f94079b4426f3403f8066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 14/67] fix: overlapping path arguments no longer run a file's
 tests more than once natively

---
 src/native_runner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 16b99f0..0c0c5c2 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -420,7 +420,9 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
             .collect()
     };
 
+    // Overlapping path arguments name the same file more than once
     test_files.sort();
+    test_files.dedup();
     test_files
 }
 
-- 
2.43.0


From 8a98c307372381b95a64a7078954ee2c76fd7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 15/67] fix: native execution searches the same directories and
 links as collection

---
 src/native_runner.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 0c0c5c2..8c78a0f 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -1,5 +1,6 @@
 //! Native test runner that executes tests via Python workers.
 
+use crate::collection::config::CollectionConfig;
 use crate::collection::glob_match;
 use serde::Deserialize;
 use std::fs::File;
@@ -359,8 +360,11 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
     }
 }
 
-fn is_hidden_or_ignored(name: &str) -> bool {
-    name.starts_with('.') || name == "__pycache__"
+/// Directories that collection does not enter, so execution must not either
+fn is_hidden_or_ignored(name: &str, norecursedirs: &[String]) -> bool {
+    name.starts_with('.')
+        || name == "__pycache__"
+        || norecursedirs.iter().any(|p| glob_match(p, name))
 }
 
 /// Check if a file matches any of the python_files patterns
@@ -381,12 +385,19 @@ fn is_test_file(path: &Path, patterns: &[String]) -> bool {
 }
 
 fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
+    let norecursedirs = CollectionConfig::default().norecursedirs;
+
     WalkDir::new(dir)
+        .follow_links(true)
         .into_iter()
         .filter_entry(|e| {
+            // The directory that was asked for is searched whatever its name
+            if e.depth() == 0 || !e.file_type().is_dir() {
+                return true;
+            }
             e.file_name()
                 .to_str()
-                .map(|n| !is_hidden_or_ignored(n))
+                .map(|n| !is_hidden_or_ignored(n, &norecursedirs))
                 .unwrap_or(false)
         })
         .filter_map(|e| e.ok())
-- 
2.43.0


From 65d6772aea591c8161b2c3aa74b8061e9a04b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 16/67] fix: path arguments spelled with '..' name the same
 file as their plain form

---
 src/collection/mod.rs   |  2 +-
 src/collection/nodes.rs | 11 ++---------
 src/collection/utils.rs | 17 +++++++++++++++++
 src/native_runner.rs    |  9 ++-------
 4 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/collection/mod.rs b/src/collection/mod.rs
index 70bf9c8..150401b 100644
--- a/src/collection/mod.rs
+++ b/src/collection/mod.rs
@@ -8,4 +8,4 @@ pub mod nodes;
 pub mod types;
 mod utils;
 
-pub use utils::glob_match;
+pub use utils::{glob_match, resolve_path};
diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 3d68207..b142a4b 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -3,7 +3,7 @@
 use super::config::CollectionConfig;
 use super::error::{CollectionError, CollectionOutcome, CollectionResult, CollectionWarning};
 use super::types::{Collector, Location};
-use super::utils::glob_match;
+use super::utils::{glob_match, resolve_path};
 use crate::python_discovery::{
     discover_tests_with_inheritance, format_cannot_expand_warning, test_info_to_functions,
     CasesExpansion, TestDiscoveryConfig,
@@ -34,14 +34,7 @@ impl Session {
 
     fn resolve_args(&self, args: &[String]) -> Vec<PathBuf> {
         args.iter()
-            .map(|arg| {
-                let path = PathBuf::from(arg);
-                if path.is_absolute() {
-                    path
-                } else {
-                    self.rootpath.join(arg)
-                }
-            })
+            .map(|arg| resolve_path(&self.rootpath, Path::new(arg)))
             .collect()
     }
 
diff --git a/src/collection/utils.rs b/src/collection/utils.rs
index 4557fbe..9907c8d 100644
--- a/src/collection/utils.rs
+++ b/src/collection/utils.rs
@@ -1,5 +1,22 @@
 //! Collection utility functions.
 
+use std::path::{Component, Path, PathBuf};
+
+/// Absolute path of an argument, with `.` and `..` resolved textually as pytest does
+pub fn resolve_path(root: &Path, arg: &Path) -> PathBuf {
+    let mut resolved = PathBuf::new();
+    for component in root.join(arg).components() {
+        match component {
+            Component::CurDir => {}
+            Component::ParentDir => {
+                resolved.pop();
+            }
+            other => resolved.push(other),
+        }
+    }
+    resolved
+}
+
 /// Simple glob pattern matching
 pub fn glob_match(pattern: &str, text: &str) -> bool {
     use glob::Pattern;
diff --git a/src/native_runner.rs b/src/native_runner.rs
index 8c78a0f..19e9a77 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -1,7 +1,7 @@
 //! Native test runner that executes tests via Python workers.
 
 use crate::collection::config::CollectionConfig;
-use crate::collection::glob_match;
+use crate::collection::{glob_match, resolve_path};
 use serde::Deserialize;
 use std::fs::File;
 use std::io::{BufRead, BufReader};
@@ -413,12 +413,7 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
         paths
             .iter()
             .flat_map(|path_str| {
-                let path = Path::new(path_str);
-                let full_path = if path.is_absolute() {
-                    path.to_path_buf()
-                } else {
-                    root.join(path)
-                };
+                let full_path = resolve_path(root, Path::new(path_str));
 
                 if full_path.is_file() && is_test_file(&full_path, patterns) {
                     vec![full_path]
-- 
2.43.0


From 764e582ab64a69c64c2fade2c6a1e28b23990fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 17/67] fix: raises rejects a bytes pattern when it is set up

---
 python/rtest/raises.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/rtest/raises.py b/python/rtest/raises.py
index 893fe9b..2357866 100644
--- a/python/rtest/raises.py
+++ b/python/rtest/raises.py
@@ -27,9 +27,11 @@ class RaisesContext:
 
         if self.match_expr is not None:
             try:
-                re.compile(self.match_expr)
+                compiled = re.compile(self.match_expr)
             except re.error as e:
                 raise ValueError(f"Invalid regex pattern provided to 'match': {e}") from e
+            if not isinstance(compiled.pattern, str):
+                raise TypeError(f"'match' must be a str pattern, got {self.match_expr!r}")
 
     def __enter__(self) -> RaisesContext:
         return self
-- 
2.43.0


From 79d05d38dffaae8cac3d71f8eef4db9a020d856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 18/67] fix: case decorators on a class apply to its test
 methods in the worker

---
 python/rtest/mark.py          | 22 ++++++++++++++++------
 python/rtest/worker/runner.py |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 0b60ad5..bfd0a69 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -232,8 +232,8 @@ def _extract_pytest_marker_args(mark_args: tuple[object, ...]) -> PytestMarkerAr
     return PytestMarkerArgs("", [])
 
 
-def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
-    """Get parametrize specs from rtest or pytest markers."""
+def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
+    """Get parametrize specs of a function, or of a class itself, from rtest or pytest markers."""
     # Check rtest markers first
     rtest_specs: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", [])
     if rtest_specs:
@@ -241,7 +241,14 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
 
     # Check pytest markers (with deprecation warning)
     specs: list[ParametrizeSpec] = []
-    pytest_marks: list[object] = getattr(func, "pytestmark", [])
+    if isinstance(func, type):
+        # A class carries its own marks after those of the classes it inherits from
+        holders = [vars(base).get("pytestmark", []) for base in reversed(func.__mro__)]
+    else:
+        holders = [getattr(func, "pytestmark", [])]
+    pytest_marks: list[object] = []
+    for own in holders:
+        pytest_marks.extend(own if isinstance(own, (list, tuple)) else [own])
     for pytest_mark in pytest_marks:
         if getattr(pytest_mark, "name", None) == "parametrize":
             warnings.warn(
@@ -280,16 +287,17 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
     return specs
 
 
-def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
+def expand_parametrize(func: FunctionType, test_class: type | None = None) -> list[ExpandedCase]:
     """Expand test cases for a test function.
 
-    If the function has no @rtest.mark.cases decorators, returns a single
-    entry with empty case_id and empty kwargs.
+    If neither the function nor its class has @rtest.mark.cases decorators,
+    returns a single entry with empty case_id and empty kwargs.
 
     For multiple stacked @cases decorators, computes the cartesian product.
 
     Args:
         func: The test function (may have __rtest_cases__ attribute).
+        test_class: The class of a test method; its decorators apply to every method.
 
     Returns:
         List of ExpandedCase entries where:
@@ -297,6 +305,8 @@ def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
         - kwargs is the dict of arguments to pass to the function
     """
     specs = _get_parametrize_specs(func)
+    if test_class is not None:
+        specs = [*specs, *_get_parametrize_specs(test_class)]
 
     if not specs:
         return [ExpandedCase("", {})]
diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index a38ff29..fdc11ae 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -190,7 +190,7 @@ def _discover_tests_in_module(
                     skip = method_skip or class_skip
                     skip_reason = method_skip_reason if method_skip else class_skip_reason
 
-                    for case_id, kwargs in expand_parametrize(method_func):
+                    for case_id, kwargs in expand_parametrize(method_func, class_obj):
                         suffix = get_case_nodeid_suffix(case_id)
                         nodeid = f"{rel_path}::{name}::{method_name}{suffix}"
                         test_cases.append(
-- 
2.43.0


From e3e7d49bfc267051b759ade5d853556edda85e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 19/67] fix: pytest parametrize marks with keyword arguments or
 any iterable of values no longer lose their cases

---
 python/rtest/mark.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index bfd0a69..f697ebe 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -23,7 +23,7 @@ import itertools
 import warnings
 from dataclasses import dataclass
 from types import FunctionType, MappingProxyType
-from typing import Callable, NamedTuple, Sequence, TypeVar
+from typing import Callable, Mapping, NamedTuple, Sequence, TypeVar
 
 # TypeVar for decorators that preserve function signatures
 # The bound includes "type" to support decorating classes as well as functions
@@ -219,17 +219,15 @@ def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
     return entries
 
 
-def _extract_pytest_marker_args(mark_args: tuple[object, ...]) -> PytestMarkerArgs:
+def _extract_pytest_marker_args(mark_args: tuple[object, ...], mark_kwargs: Mapping[str, object]) -> PytestMarkerArgs:
     """Extract argnames and argvalues from pytest marker args.
 
     Returns:
         PytestMarkerArgs with defaults for missing values.
     """
-    if len(mark_args) >= 2:
-        return PytestMarkerArgs(mark_args[0], mark_args[1])
-    elif len(mark_args) == 1:
-        return PytestMarkerArgs(mark_args[0], [])
-    return PytestMarkerArgs("", [])
+    argnames = mark_args[0] if mark_args else mark_kwargs.get("argnames", "")
+    argvalues = mark_args[1] if len(mark_args) >= 2 else mark_kwargs.get("argvalues", [])
+    return PytestMarkerArgs(argnames, argvalues)
 
 
 def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
@@ -259,7 +257,7 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             # Convert pytest marker to ParametrizeSpec
             mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
             mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
-            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args)
+            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args, mark_kwargs)
             ids_raw: object = mark_kwargs.get("ids")
 
             if isinstance(argnames_raw, str):
@@ -268,9 +266,6 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
                 # Assume it's a sequence of strings - need type ignore for iteration on object
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
 
-            # Convert argvalues to tuple
-            argvalues_seq: Sequence[object] = argvalues_raw if isinstance(argvalues_raw, (list, tuple)) else []
-
             # Handle ids
             ids_tuple: tuple[str, ...] | None = None
             if ids_raw is not None and isinstance(ids_raw, (list, tuple)):
@@ -279,7 +274,7 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             specs.append(
                 ParametrizeSpec(
                     argnames=parsed_argnames,
-                    argvalues=tuple(argvalues_seq),
+                    argvalues=tuple(argvalues_raw),  # type: ignore[arg-type]
                     ids=ids_tuple,
                 )
             )
-- 
2.43.0


From 999b84480e673e18ada28d651861a5b2b62250ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 20/67] fix: a trailing comma in the argument names of cases is
 no extra argument

---
 python/rtest/mark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index f697ebe..d9735b5 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -95,7 +95,7 @@ class Mark:
                 pass
         """
         if isinstance(argnames, str):
-            parsed_argnames = tuple(name.strip() for name in argnames.split(","))
+            parsed_argnames = tuple(name.strip() for name in argnames.split(",") if name.strip())
         else:
             parsed_argnames = tuple(argnames)
 
@@ -261,7 +261,7 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             ids_raw: object = mark_kwargs.get("ids")
 
             if isinstance(argnames_raw, str):
-                parsed_argnames = tuple(name.strip() for name in argnames_raw.split(","))
+                parsed_argnames = tuple(name.strip() for name in argnames_raw.split(",") if name.strip())
             else:
                 # Assume it's a sequence of strings - need type ignore for iteration on object
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
-- 
2.43.0


From d195da4b3d777fec8ac3f34fc93e1b85ad93ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 21/67] fix: the worker leaves out classes with a constructor,
 as collection does

---
 python/rtest/worker/runner.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index fdc11ae..3991c4b 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -81,9 +81,19 @@ def _is_test_function(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
+def _has_constructor(cls: type) -> bool:
+    """Check if a class, or a class outside the standard library it inherits from, has a hand-written __init__."""
+    for base in inspect.getmro(cls):
+        if "__init__" not in vars(base) or base.__module__.partition(".")[0] in sys.stdlib_module_names:
+            continue
+        if not getattr(vars(base).get("__dataclass_params__"), "init", False):
+            return True
+    return False
+
+
 def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
-    """Check if an object is a test class based on patterns."""
-    if not inspect.isclass(obj):
+    """Check if an object is a test class based on patterns; like collection, leaves out classes with a constructor."""
+    if not inspect.isclass(obj) or _has_constructor(obj):
         return False
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
-- 
2.43.0


From fc84e1e1e2e2c4b0ff1a89df4f038360b6d55b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 22/67] fix: case ids of the worker are escaped as in the
 collected identifiers

---
 python/rtest/mark.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index d9735b5..6c01fb2 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -168,10 +168,15 @@ def _deduplicate_ids(ids: list[str]) -> list[str]:
     return result
 
 
+def _escape_id(id_: str) -> str:
+    """Escape backslashes, control characters and non-ASCII characters, as collection and pytest do."""
+    return id_.encode("unicode_escape").decode("ascii")
+
+
 def _value_to_id_string(value: object) -> str:
     """Convert a parameter value to its pytest-compatible string ID."""
     if isinstance(value, str):
-        return value
+        return _escape_id(value)
     elif value is None or isinstance(value, (int, float, bool)):
         return str(value)
     elif isinstance(value, (list, tuple)):
@@ -191,7 +196,7 @@ def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
     raw_ids: list[str] = []
     for i, value in enumerate(argvalues):
         if spec.ids is not None and i < len(spec.ids):
-            raw_ids.append(spec.ids[i])
+            raw_ids.append(_escape_id(spec.ids[i]))
         else:
             # Generate value-based ID
             raw_ids.append(_value_to_id_string(value))
-- 
2.43.0


From 615df338407d6022338eb7210dbf0806aa36697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 23/67] fix: a case with an empty id keeps its brackets

---
 python/rtest/mark.py          | 9 +++++----
 python/rtest/worker/runner.py | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 6c01fb2..27bbdae 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -327,9 +327,10 @@ def expand_parametrize(func: FunctionType, test_class: type | None = None) -> li
     return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
 
 
-def get_case_nodeid_suffix(case_id: str) -> str:
-    """Get the nodeid suffix for a case ID.
+def get_case_nodeid_suffix(case_id: str, kwargs: dict[str, object] | None = None) -> str:
+    """Get the nodeid suffix for a case.
 
-    Returns empty string if no case_id, otherwise [case_id].
+    Returns empty string if there is no case, otherwise [case_id], which is
+    [] for a case whose only value has an empty ID.
     """
-    return f"[{case_id}]" if case_id else ""
+    return f"[{case_id}]" if case_id or kwargs else ""
diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 3991c4b..b8a7bf3 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -164,7 +164,7 @@ def _discover_tests_in_module(
             func_skip, func_skip_reason = _is_skipped(func_obj)
 
             for case_id, kwargs in expand_parametrize(func_obj):
-                suffix = get_case_nodeid_suffix(case_id)
+                suffix = get_case_nodeid_suffix(case_id, kwargs)
                 nodeid = f"{rel_path}::{name}{suffix}"
                 test_cases.append(
                     TestCase(
@@ -201,7 +201,7 @@ def _discover_tests_in_module(
                     skip_reason = method_skip_reason if method_skip else class_skip_reason
 
                     for case_id, kwargs in expand_parametrize(method_func, class_obj):
-                        suffix = get_case_nodeid_suffix(case_id)
+                        suffix = get_case_nodeid_suffix(case_id, kwargs)
                         nodeid = f"{rel_path}::{name}::{method_name}{suffix}"
                         test_cases.append(
                             TestCase(
-- 
2.43.0


From ffb3b5b146be2f56eaa62528047065f61e622aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 24/67] fix: a None entry in ids means a value-based id instead
 of failing the file

---
 python/rtest/mark.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 27bbdae..e477be8 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -47,7 +47,7 @@ class ParametrizeSpec:
 
     argnames: tuple[str, ...]
     argvalues: tuple[object, ...]
-    ids: tuple[str, ...] | None
+    ids: tuple[str | None, ...] | None  # None entries get a value-based ID
 
 
 class PytestMarkerArgs(NamedTuple):
@@ -72,7 +72,7 @@ class Mark:
         argnames: str | Sequence[str],
         argvalues: Sequence[object],
         *,
-        ids: Sequence[str] | None = None,
+        ids: Sequence[str | None] | None = None,
     ) -> Callable[[F], F]:
         """Decorator to define test cases for a test function.
 
@@ -99,7 +99,7 @@ class Mark:
         else:
             parsed_argnames = tuple(argnames)
 
-        materialized_ids: tuple[str, ...] | None = tuple(ids) if ids is not None else None
+        materialized_ids: tuple[str | None, ...] | None = tuple(ids) if ids is not None else None
 
         spec = ParametrizeSpec(
             argnames=parsed_argnames,
@@ -195,8 +195,9 @@ def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
 
     raw_ids: list[str] = []
     for i, value in enumerate(argvalues):
-        if spec.ids is not None and i < len(spec.ids):
-            raw_ids.append(_escape_id(spec.ids[i]))
+        custom_id = spec.ids[i] if spec.ids is not None and i < len(spec.ids) else None
+        if custom_id is not None:
+            raw_ids.append(_escape_id(str(custom_id)))
         else:
             # Generate value-based ID
             raw_ids.append(_value_to_id_string(value))
@@ -272,9 +273,9 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
 
             # Handle ids
-            ids_tuple: tuple[str, ...] | None = None
+            ids_tuple: tuple[str | None, ...] | None = None
             if ids_raw is not None and isinstance(ids_raw, (list, tuple)):
-                ids_tuple = tuple(str(i) for i in ids_raw)
+                ids_tuple = tuple(None if i is None else str(i) for i in ids_raw)
 
             specs.append(
                 ParametrizeSpec(
-- 
2.43.0


From 1794f2f9c297823bed516f43a9c84f97f49ec540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 25/67] fix: enum members have the case id that collection
 lists

---
 python/rtest/mark.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index e477be8..6c03517 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -22,6 +22,7 @@ Example usage:
 import itertools
 import warnings
 from dataclasses import dataclass
+from enum import Enum
 from types import FunctionType, MappingProxyType
 from typing import Callable, Mapping, NamedTuple, Sequence, TypeVar
 
@@ -179,6 +180,8 @@ def _value_to_id_string(value: object) -> str:
         return _escape_id(value)
     elif value is None or isinstance(value, (int, float, bool)):
         return str(value)
+    elif isinstance(value, Enum):
+        return str(value)
     elif isinstance(value, (list, tuple)):
         return "-".join(_value_to_id_string(v) for v in value)
     elif hasattr(value, "__name__"):
-- 
2.43.0


From 453c5e221c7eae548174b5c1ad6d2579593f2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 26/67] fix: collected case ids of Latin-1 characters and
 floats are those of the run

---
 src/python_discovery/cases.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index bf73bfc..b8052db 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -561,7 +561,7 @@ fn extract_ids_kwarg(
 pub fn literal_to_id_string(value: &LiteralValue) -> String {
     match value {
         LiteralValue::Int(i) => i.to_string(),
-        LiteralValue::Float(f) => f.to_string(),
+        LiteralValue::Float(f) => float_repr(*f),
         LiteralValue::String(s) => ascii_escape_string(s),
         LiteralValue::Bool(b) => if *b { "True" } else { "False" }.to_string(),
         LiteralValue::None => "None".to_string(),
@@ -574,6 +574,21 @@ pub fn literal_to_id_string(value: &LiteralValue) -> String {
     }
 }
 
+/// Format a float the way Python's `repr` does (`1.0`, `1e+16`, `1e-05`).
+fn float_repr(value: f64) -> String {
+    let scientific = format!("{:e}", value);
+    let Some((mantissa, exponent)) = scientific.split_once('e') else {
+        return scientific; // inf
+    };
+    let exponent: i32 = exponent.parse().unwrap_or(0);
+    if (-4..16).contains(&exponent) {
+        format!("{:?}", value)
+    } else {
+        let sign = if exponent < 0 { '-' } else { '+' };
+        format!("{}e{}{:02}", mantissa, sign, exponent.abs())
+    }
+}
+
 /// Escape a string for use in test IDs.
 ///
 /// Escapes backslashes, control characters, and non-ASCII characters.
@@ -591,7 +606,9 @@ fn ascii_escape_string(s: &str) -> String {
             c if c.is_ascii() => result.push(c),
             c => {
                 let code = c as u32;
-                if code <= 0xFFFF {
+                if code <= 0xFF {
+                    result.push_str(&format!("\\x{:02x}", code));
+                } else if code <= 0xFFFF {
                     result.push_str(&format!("\\u{:04x}", code));
                 } else {
                     result.push_str(&format!("\\U{:08x}", code));
-- 
2.43.0


From 811e2dcf502dfd5d319b2cdf188d12d373f7e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 27/67] fix: signed and large numbers as case values are listed
 under their value

---
 src/python_discovery/cases.rs             | 65 +++++++++++++----------
 src/python_discovery/constant_resolver.rs | 11 +---
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index b8052db..ddc1872 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -437,33 +437,15 @@ fn extract_literal(
     resolver: Option<&ConstantResolver>,
 ) -> Result<(LiteralValue, String), CannotExpandReason> {
     match expr {
-        Expr::NumberLiteral(num) => {
-            use ruff_python_ast::Number;
-            match &num.value {
-                Number::Int(i) => {
-                    // Try to convert to i64, fall back to string representation for large ints
-                    match i.as_i64() {
-                        Some(v) => {
-                            let lit = LiteralValue::Int(v);
-                            let id = literal_to_id_string(&lit);
-                            Ok((lit, id))
-                        }
-                        None => {
-                            let lit = LiteralValue::String(i.to_string());
-                            let id = literal_to_id_string(&lit);
-                            Ok((lit, id))
-                        }
-                    }
-                }
-                Number::Float(f) => {
-                    let lit = LiteralValue::Float(*f);
-                    let id = literal_to_id_string(&lit);
-                    Ok((lit, id))
-                }
-                Number::Complex { .. } => Err(CannotExpandReason::UnsupportedExpression(
-                    "complex numbers".to_string(),
-                )),
-            }
+        Expr::NumberLiteral(_) | Expr::UnaryOp(_) => {
+            let lit = number_literal(expr).ok_or_else(|| {
+                CannotExpandReason::UnsupportedExpression(match expr {
+                    Expr::NumberLiteral(_) => "complex numbers".to_string(),
+                    _ => "operators".to_string(),
+                })
+            })?;
+            let id = literal_to_id_string(&lit);
+            Ok((lit, id))
         }
         Expr::StringLiteral(s) => {
             let lit = LiteralValue::String(s.value.to_str().to_string());
@@ -517,6 +499,35 @@ fn extract_literal(
     }
 }
 
+/// Value of an int or float literal, possibly signed; `None` for any other expression.
+pub fn number_literal(expr: &Expr) -> Option<LiteralValue> {
+    use ruff_python_ast::{Number, UnaryOp};
+    match expr {
+        Expr::NumberLiteral(num) => match &num.value {
+            // Ints beyond 64 bits are kept as text
+            Number::Int(i) => Some(match i.as_i64() {
+                Some(v) => LiteralValue::Int(v),
+                None => LiteralValue::String(i.to_string()),
+            }),
+            Number::Float(f) => Some(LiteralValue::Float(*f)),
+            Number::Complex { .. } => None,
+        },
+        Expr::UnaryOp(unary) => match (unary.op, number_literal(&unary.operand)?) {
+            (UnaryOp::UAdd, value) => Some(value),
+            (UnaryOp::USub, LiteralValue::Int(i)) => i.checked_neg().map(LiteralValue::Int),
+            (UnaryOp::USub, LiteralValue::Float(f)) => Some(LiteralValue::Float(-f)),
+            (UnaryOp::USub, LiteralValue::String(text)) => {
+                Some(LiteralValue::String(match text.strip_prefix('-') {
+                    Some(digits) => digits.to_string(),
+                    None => format!("-{text}"),
+                }))
+            }
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 /// Get the name of a called function for error messages.
 fn get_call_name(func: &Expr) -> String {
     match func {
diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index e497c17..cbf97cf 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -6,7 +6,7 @@
 use ruff_python_ast::{Expr, ExprAttribute, ExprName, ModModule, Stmt};
 use std::collections::HashMap;
 
-use super::cases::LiteralValue;
+use super::cases::{number_literal, LiteralValue};
 
 /// A scope containing constants (module-level or class body).
 ///
@@ -112,14 +112,7 @@ fn expr_to_path(expr: &Expr) -> Option<Vec<String>> {
 /// This is intentionally limited to simple literals to avoid complexity.
 fn try_extract_literal(expr: &Expr) -> Option<LiteralValue> {
     match expr {
-        Expr::NumberLiteral(num) => {
-            use ruff_python_ast::Number;
-            match &num.value {
-                Number::Int(i) => Some(LiteralValue::Int(i.as_i64().unwrap_or(0))),
-                Number::Float(f) => Some(LiteralValue::Float(*f)),
-                Number::Complex { .. } => None,
-            }
-        }
+        Expr::NumberLiteral(_) | Expr::UnaryOp(_) => number_literal(expr),
         Expr::StringLiteral(s) => Some(LiteralValue::String(s.value.to_str().to_string())),
         Expr::BooleanLiteral(b) => Some(LiteralValue::Bool(b.value)),
         Expr::NoneLiteral(_) => Some(LiteralValue::None),
-- 
2.43.0


From addbf3dbf69dcd251ab6743b582a8996e668472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 28/67] fix: sequences, objects and empty strings as case
 values have the ids pytest gives them

---
 python/rtest/mark.py          | 25 +++++++-----
 src/python_discovery/cases.rs | 74 +++++++++++++++++++++++------------
 2 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 6c03517..5087501 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -20,6 +20,7 @@ Example usage:
 """
 
 import itertools
+import re
 import warnings
 from dataclasses import dataclass
 from enum import Enum
@@ -174,20 +175,25 @@ def _escape_id(id_: str) -> str:
     return id_.encode("unicode_escape").decode("ascii")
 
 
-def _value_to_id_string(value: object) -> str:
-    """Convert a parameter value to its pytest-compatible string ID."""
+def _value_to_id_string(value: object, argname: str, index: int) -> str:
+    """Convert a parameter value to its pytest-compatible string ID.
+
+    Values without a telling one, like sequences and objects, are named after their argument and position.
+    """
     if isinstance(value, str):
         return _escape_id(value)
-    elif value is None or isinstance(value, (int, float, bool)):
+    elif isinstance(value, bytes):
+        return "".join(c if c.isprintable() else _escape_id(c) for c in value.decode("ascii", "backslashreplace"))
+    elif value is None or isinstance(value, (int, float, bool, complex)):
         return str(value)
+    elif isinstance(value, re.Pattern):
+        return _value_to_id_string(value.pattern, argname, index)
     elif isinstance(value, Enum):
         return str(value)
-    elif isinstance(value, (list, tuple)):
-        return "-".join(_value_to_id_string(v) for v in value)
-    elif hasattr(value, "__name__"):
+    elif isinstance(getattr(value, "__name__", None), str):
         return str(getattr(value, "__name__"))
     else:
-        return repr(value)
+        return f"{argname}{index}"
 
 
 def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
@@ -202,8 +208,9 @@ def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
         if custom_id is not None:
             raw_ids.append(_escape_id(str(custom_id)))
         else:
-            # Generate value-based ID
-            raw_ids.append(_value_to_id_string(value))
+            # Generate value-based ID, joined from one part for each argument
+            parts = value if num_args > 1 and isinstance(value, (list, tuple)) else (value,)
+            raw_ids.append("-".join(_value_to_id_string(part, name, i) for part, name in zip(parts, argnames)))
 
     unique_ids = _deduplicate_ids(raw_ids)
 
diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index ddc1872..e4aea5c 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -333,7 +333,9 @@ fn extract_argnames(expr: &Expr) -> Result<Vec<String>, CannotExpandReason> {
     }
 }
 
-/// Replace empty segments in a multi-param ID with positional IDs.
+/// Replace empty segments in a joined multi-param ID with positional IDs.
+///
+/// Only sound while no part is empty or contains a dash; `extract_case` works part by part.
 ///
 /// For ID "-2-3" with argnames ["data", "num", "count"] at tuple index 0:
 /// - Position 0: "" (empty) -> "data0"
@@ -341,6 +343,7 @@ fn extract_argnames(expr: &Expr) -> Result<Vec<String>, CannotExpandReason> {
 /// - Position 2: "3" (non-empty, keep)
 ///
 /// Result: "data0-2-3"
+#[cfg(test)]
 fn fill_opaque_placeholders(id: &str, argnames: &[String], tuple_idx: usize) -> String {
     let parts: Vec<&str> = id.split('-').collect();
     let filled: Vec<String> = parts
@@ -358,6 +361,49 @@ fn fill_opaque_placeholders(id: &str, argnames: &[String], tuple_idx: usize) ->
     filled.join("-")
 }
 
+/// Extract the value of one case and its ID.
+///
+/// As in pytest, a case of several arguments has an ID part per argument, and a value
+/// that is not a scalar (a sequence, or opaque) gets the positional ID of its argument.
+fn extract_case(
+    expr: &Expr,
+    resolver: Option<&ConstantResolver>,
+    argnames: &[String],
+    idx: usize,
+) -> Result<(LiteralValue, String), CannotExpandReason> {
+    let part_id = |value: &LiteralValue, id: String, argname: &str| match value {
+        LiteralValue::Opaque | LiteralValue::Sequence(_) => format!("{argname}{idx}"),
+        _ => id,
+    };
+
+    let (value, id) = extract_literal(expr, resolver)?;
+    if let [argname] = argnames {
+        let id = part_id(&value, id, argname);
+        return Ok((value, id));
+    }
+    let parts: Vec<(LiteralValue, String)> = match (expr, &value) {
+        (Expr::Tuple(ExprTuple { elts, .. }) | Expr::List(ExprList { elts, .. }), _) => elts
+            .iter()
+            .map(|elt| extract_literal(elt, resolver))
+            .collect::<Result<_, _>>()?,
+        (_, LiteralValue::Sequence(values)) => values
+            .iter()
+            .map(|v| (v.clone(), literal_to_id_string(v)))
+            .collect(),
+        // One opaque value for all arguments
+        _ => {
+            let id = part_id(&value, id, argnames.first().map_or("arg", |s| s.as_str()));
+            return Ok((value, id));
+        }
+    };
+    let ids: Vec<String> = parts
+        .into_iter()
+        .enumerate()
+        .map(|(pos, (v, id))| part_id(&v, id, argnames.get(pos).map_or("arg", |s| s.as_str())))
+        .collect();
+    Ok((value, ids.join("-")))
+}
+
 /// Extract argument values from the second decorator argument.
 ///
 /// Returns `(values, value_ids)` where `value_ids` contains the ID string for each value.
@@ -368,36 +414,14 @@ fn extract_argvalues(
     resolver: Option<&ConstantResolver>,
     argnames: &[String],
 ) -> Result<(Vec<LiteralValue>, Vec<String>), CannotExpandReason> {
-    let first_argname = argnames.first().map(|s| s.as_str()).unwrap_or("arg");
-
     match expr {
         Expr::List(ExprList { elts, .. }) | Expr::Tuple(ExprTuple { elts, .. }) => {
             let mut values = Vec::with_capacity(elts.len());
             let mut ids = Vec::with_capacity(elts.len());
             for (idx, elt) in elts.iter().enumerate() {
-                let (value, id) = extract_literal(elt, resolver)?;
-
-                // Fill in positional IDs for opaque positions
-                let final_id = if id.is_empty() {
-                    // Single opaque value - use first argname
-                    format!("{}{}", first_argname, idx)
-                } else if matches!(value, LiteralValue::Sequence(_)) && id.contains('-') {
-                    // Multi-param tuple - may have opaque placeholders (empty segments between dashes)
-                    fill_opaque_placeholders(&id, argnames, idx)
-                } else if matches!(value, LiteralValue::Sequence(_)) {
-                    // Single-element sequence or all-opaque sequence
-                    // Check if the id itself is empty (single opaque in sequence)
-                    if id.is_empty() {
-                        format!("{}{}", first_argname, idx)
-                    } else {
-                        fill_opaque_placeholders(&id, argnames, idx)
-                    }
-                } else {
-                    id
-                };
-
+                let (value, id) = extract_case(elt, resolver, argnames, idx)?;
                 values.push(value);
-                ids.push(final_id);
+                ids.push(id);
             }
             Ok((values, ids))
         }
-- 
2.43.0


From f8b0e8dc02f9fc6e839933ce8ab017bdc4ec8161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 29/67] fix: cases whose values cannot be known statically are
 not listed under invented ids

---
 src/python_discovery/cases.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index e4aea5c..832a15e 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -518,8 +518,10 @@ fn extract_literal(
         Expr::ListComp(_) | Expr::SetComp(_) | Expr::DictComp(_) | Expr::Generator(_) => {
             Err(CannotExpandReason::Comprehension)
         }
-        // Other expressions - treat as opaque if we can count them
-        _ => Ok((LiteralValue::Opaque, String::new())),
+        // Bytes, operators, f-strings, starred elements, ... - their value (or number) decides the ID
+        _ => Err(CannotExpandReason::UnsupportedExpression(
+            "a value that cannot be determined statically".to_string(),
+        )),
     }
 }
 
-- 
2.43.0


From 99c5afac4429ab4ce43af2e0b6c9eb6e89efd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 30/67] fix: partial, computed and None entries of ids are
 listed as they are run

---
 src/python_discovery/cases.rs | 78 +++++++++++++++++------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 832a15e..30bdfa9 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -238,7 +238,17 @@ fn parse_single_decorator(
             Err(reason) => return DecoratorParseResult::CannotExpand(reason),
         };
 
-    let ids = extract_ids_kwarg(&call.arguments.keywords, resolver);
+    let ids = match extract_ids_kwarg(&call.arguments.keywords, resolver) {
+        // Cases without a custom ID keep their value-based one
+        Ok(ids) => ids.map(|ids| {
+            let mut ids = ids.into_iter();
+            value_ids
+                .iter()
+                .map(|value_id| ids.next().flatten().unwrap_or_else(|| value_id.clone()))
+                .collect()
+        }),
+        Err(reason) => return DecoratorParseResult::CannotExpand(reason),
+    };
 
     DecoratorParseResult::CasesSpec(CasesSpec {
         argnames,
@@ -563,35 +573,36 @@ fn get_call_name(func: &Expr) -> String {
     }
 }
 
-/// Extract the `ids` keyword argument if present.
+/// Extract the `ids` keyword argument if present, one entry per custom ID.
+///
+/// A `None` entry asks for the value-based ID.
 fn extract_ids_kwarg(
     keywords: &[Keyword],
     resolver: Option<&ConstantResolver>,
-) -> Option<Vec<String>> {
-    for kw in keywords {
-        if let Some(arg) = &kw.arg {
-            if arg.as_str() == "ids" {
-                if let Ok((LiteralValue::Sequence(seq), _)) = extract_literal(&kw.value, resolver) {
-                    let ids: Vec<String> =
-                        seq.into_iter().map(|v| literal_to_id_string(&v)).collect();
-                    return Some(ids);
-                } else if let Expr::List(list) = &kw.value {
-                    let mut ids = Vec::with_capacity(list.elts.len());
-                    for elt in list.elts.iter() {
-                        if let Expr::StringLiteral(s) = elt {
-                            ids.push(s.value.to_str().to_string());
-                        } else if let Ok((lit, _)) = extract_literal(elt, resolver) {
-                            ids.push(literal_to_id_string(&lit));
-                        } else {
-                            return None;
-                        }
-                    }
-                    return Some(ids);
-                }
-            }
-        }
+) -> Result<Option<Vec<Option<String>>>, CannotExpandReason> {
+    let Some(kw) = keywords
+        .iter()
+        .find(|kw| kw.arg.as_ref().is_some_and(|arg| arg.as_str() == "ids"))
+    else {
+        return Ok(None);
+    };
+    match extract_literal(&kw.value, resolver)?.0 {
+        LiteralValue::None => Ok(None),
+        LiteralValue::Sequence(seq) => seq
+            .iter()
+            .map(|id| match id {
+                LiteralValue::None => Ok(None),
+                LiteralValue::Opaque | LiteralValue::Sequence(_) => Err(unknown_ids()),
+                id => Ok(Some(literal_to_id_string(id))),
+            })
+            .collect::<Result<_, _>>()
+            .map(Some),
+        _ => Err(unknown_ids()),
     }
-    None
+}
+
+fn unknown_ids() -> CannotExpandReason {
+    CannotExpandReason::UnsupportedExpression("ids must be a list of literals".to_string())
 }
 
 /// Convert a literal value to its string representation for use as a case ID.
@@ -688,19 +699,8 @@ pub fn expand_cases(specs: &[CasesSpec]) -> Vec<ExpandedCase> {
 
 /// Expand a single spec into case IDs.
 fn expand_single_spec(spec: &CasesSpec) -> Vec<String> {
-    let count = spec.argvalues.len();
-
-    if let Some(ids) = &spec.ids {
-        // Custom IDs override everything
-        ids.iter()
-            .take(count)
-            .cloned()
-            .chain((ids.len()..count).map(|i| i.to_string()))
-            .collect()
-    } else {
-        // Use pre-computed value_ids (from literals or resolved source paths)
-        spec.value_ids.clone()
-    }
+    // Custom IDs override those computed from literals or resolved source paths
+    spec.ids.as_ref().unwrap_or(&spec.value_ids).clone()
 }
 
 /// Deduplicate IDs by adding `_1`, `_2` suffixes for duplicates.
-- 
2.43.0


From e21d7a41df97a922024fd0424abd499f052a64cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 31/67] fix: repeated case ids are listed under the names they
 run under

---
 src/python_discovery/cases.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 30bdfa9..626b763 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -6,6 +6,7 @@
 use ruff_python_ast::{Decorator, Expr, ExprAttribute, ExprList, ExprName, ExprTuple, Keyword};
 
 use super::constant_resolver::ConstantResolver;
+use std::collections::{HashMap, HashSet};
 
 /// A literal value that can be statically extracted from AST.
 #[derive(Debug, Clone, PartialEq)]
@@ -700,22 +701,30 @@ pub fn expand_cases(specs: &[CasesSpec]) -> Vec<ExpandedCase> {
 /// Expand a single spec into case IDs.
 fn expand_single_spec(spec: &CasesSpec) -> Vec<String> {
     // Custom IDs override those computed from literals or resolved source paths
-    spec.ids.as_ref().unwrap_or(&spec.value_ids).clone()
+    deduplicate_ids(spec.ids.as_ref().unwrap_or(&spec.value_ids).clone())
 }
 
 /// Deduplicate IDs by adding `_1`, `_2` suffixes for duplicates.
 fn deduplicate_ids(ids: Vec<String>) -> Vec<String> {
-    let mut seen: std::collections::HashMap<String, usize> = std::collections::HashMap::new();
+    let mut taken: HashSet<String> = ids.iter().cloned().collect();
+    let mut seen: HashMap<String, usize> = HashMap::new();
     let mut result = Vec::with_capacity(ids.len());
 
     for id in ids {
-        let count = seen.entry(id.clone()).or_insert(0);
-        if *count == 0 {
+        let Some(count) = seen.get_mut(&id) else {
+            seen.insert(id.clone(), 0);
             result.push(id);
-        } else {
-            result.push(format!("{}_{}", id, count));
-        }
-        *count += 1;
+            continue;
+        };
+        // Skip suffixes that would collide with another ID
+        let unique = loop {
+            *count += 1;
+            let candidate = format!("{id}_{count}");
+            if taken.insert(candidate.clone()) {
+                break candidate;
+            }
+        };
+        result.push(unique);
     }
 
     result
-- 
2.43.0


From 9e398922ada553bd293489ee82177b37698f7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 32/67] fix: collection respects the configured file, class and
 function patterns

---
 src/collection/nodes.rs         | 18 +++++++++++++++++-
 src/python_discovery/pattern.rs | 12 ++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index b142a4b..cedf11a 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -24,10 +24,22 @@ pub struct Session {
 
 impl Session {
     pub fn new(rootpath: PathBuf) -> Self {
+        let mut config = CollectionConfig::default();
+        let pytest_config = crate::config::read_pytest_config(&rootpath);
+        if !pytest_config.python_files.is_empty() {
+            config.python_files = pytest_config.python_files;
+        }
+        if !pytest_config.python_classes.is_empty() {
+            config.python_classes = pytest_config.python_classes;
+        }
+        if !pytest_config.python_functions.is_empty() {
+            config.python_functions = pytest_config.python_functions;
+        }
+
         Self {
             nodeid: String::new(),
             rootpath,
-            config: CollectionConfig::default(),
+            config,
             cache: HashMap::new(),
         }
     }
@@ -125,6 +137,10 @@ impl Session {
     pub fn is_python_file(&self, path: &Path) -> bool {
         let filename = path.file_name().and_then(|n| n.to_str()).unwrap_or("");
 
+        if path.extension().is_none_or(|ext| ext != "py") {
+            return false;
+        }
+
         for pattern in &self.config.python_files {
             if glob_match(pattern, filename) {
                 return true;
diff --git a/src/python_discovery/pattern.rs b/src/python_discovery/pattern.rs
index e0e2785..6a41cac 100644
--- a/src/python_discovery/pattern.rs
+++ b/src/python_discovery/pattern.rs
@@ -1,14 +1,10 @@
 //! Pattern matching utilities for test discovery.
 
-/// Check if a name matches a pattern (supports * wildcards)
+use crate::collection::glob_match;
+
+/// Check if a name matches a pattern (supports glob wildcards)
 pub fn matches(pattern: &str, name: &str) -> bool {
-    if let Some(prefix) = pattern.strip_suffix('*') {
-        name.starts_with(prefix)
-    } else if let Some(suffix) = pattern.strip_prefix('*') {
-        name.ends_with(suffix)
-    } else {
-        pattern == name
-    }
+    glob_match(pattern, name)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 768315fa0b7ab4ae29eb9cd8ea2596cb26d4a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 33/67] fix: collection order no longer depends on the file
 system

---
 src/collection/nodes.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index cedf11a..aab10f2 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -217,18 +217,20 @@ impl Collector for Directory {
             Err(err) => return Err(err.into()),
         };
 
-        // Process entries, filtering out unnecessary Vec allocations
-        let mut items = Vec::new();
-
+        let mut paths = Vec::new();
         for entry_result in dir_entries {
-            let entry = match entry_result {
-                Ok(entry) => entry,
+            match entry_result {
+                Ok(entry) => paths.push(entry.path()),
                 Err(err) if err.kind() == std::io::ErrorKind::PermissionDenied => continue,
                 Err(err) => return Err(err.into()),
-            };
+            }
+        }
+        // The order of directory entries depends on the file system
+        paths.sort();
 
-            let path = entry.path();
+        let mut items = Vec::new();
 
+        for path in paths {
             if self.session().should_ignore_path(&path)? {
                 continue;
             }
-- 
2.43.0


From eaaf6b1149f4ed467810e98aaa01a31b33265c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 34/67] fix: overlapping path arguments no longer list a test
 more than once

---
 src/collection_integration.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/collection_integration.rs b/src/collection_integration.rs
index 0a3e419..e816a24 100644
--- a/src/collection_integration.rs
+++ b/src/collection_integration.rs
@@ -3,6 +3,8 @@
 use crate::collection::error::{CollectionError, CollectionOutcome, CollectionWarning};
 use crate::collection::nodes::{collect_one_node, Session};
 use crate::collection::types::Collector;
+use std::collections::HashSet;
+use std::hash::Hash;
 use std::path::PathBuf;
 use std::rc::Rc;
 
@@ -40,12 +42,25 @@ pub fn collect_tests_rust(
                 );
             }
 
+            // Overlapping path arguments name the same test, error or warning more than once
+            retain_first(&mut test_nodes, String::clone);
+            retain_first(&mut collection_errors.errors, |(nodeid, error)| {
+                (nodeid.clone(), error.to_string())
+            });
+            retain_first(&mut collection_errors.warnings, |w| w.to_string());
+
             Ok((test_nodes, collection_errors))
         }
         Err(e) => Err(e),
     }
 }
 
+/// Keep the first of all entries that have the same key
+fn retain_first<T, K: Eq + Hash>(entries: &mut Vec<T>, key: impl Fn(&T) -> K) {
+    let mut seen = HashSet::new();
+    entries.retain(|entry| seen.insert(key(entry)));
+}
+
 /// Recursively collect all test items
 fn collect_items_recursive(
     collector: &dyn Collector,
-- 
2.43.0


From 2a492811a4780a38ce523a63cb957d25ff2fd2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 35/67] fix: a directory that was asked for is collected
 whatever its name

---
 src/collection/nodes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index aab10f2..7edf325 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -91,10 +91,7 @@ impl Session {
     }
 
     fn collect_path(self: &Rc<Self>, path: &Path) -> CollectionResult<Vec<Box<dyn Collector>>> {
-        if self.should_ignore_path(path)? {
-            return Ok(vec![]);
-        }
-
+        // What was asked for is collected whatever its name; only what lies below can be ignored
         if path.is_dir() {
             let dir = Directory::new(path.to_path_buf(), Rc::clone(self));
             Ok(vec![Box::new(dir)])
-- 
2.43.0


From 8a19726337c07b15fffa6c1030e057a8e3ed5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 36/67] fix: native execution without path arguments stays
 within the configured test paths, and missing ones do not hide all tests

---
 src/collection/nodes.rs |  9 +++------
 src/config.rs           | 11 +++++++++++
 src/pyo3.rs             | 11 +++++++++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 7edf325..ec36176 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -57,13 +57,10 @@ impl Session {
     ) -> CollectionResult<(Vec<Box<dyn Collector>>, Vec<(String, CollectionError)>)> {
         let paths = if args.is_empty() {
             let pytest_config = crate::config::read_pytest_config(&self.rootpath);
+            let testpaths = pytest_config.existing_testpaths(&self.rootpath);
 
-            if !pytest_config.testpaths.is_empty() {
-                pytest_config
-                    .testpaths
-                    .iter()
-                    .map(|p| self.rootpath.join(p))
-                    .collect()
+            if !testpaths.is_empty() {
+                self.resolve_args(&testpaths)
             } else if self.config.testpaths.is_empty() {
                 vec![self.rootpath.clone()]
             } else {
diff --git a/src/config.rs b/src/config.rs
index 8abb1b3..9d97765 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -17,6 +17,17 @@ pub struct PytestConfig {
     pub python_functions: Vec<String>,
 }
 
+impl PytestConfig {
+    /// The configured test paths that exist, to be used as path arguments when none are given
+    pub fn existing_testpaths(&self, root_path: &Path) -> Vec<String> {
+        self.testpaths
+            .iter()
+            .filter(|path| root_path.join(path).exists())
+            .map(|path| path.to_string_lossy().into_owned())
+            .collect()
+    }
+}
+
 /// Read pytest configuration from pyproject.toml
 pub fn read_pytest_config(root_path: &Path) -> PytestConfig {
     let pyproject_path = root_path.join("pyproject.toml");
diff --git a/src/pyo3.rs b/src/pyo3.rs
index 4848a90..53b2942 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -216,6 +216,7 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
 
             // Read pytest configuration for collection patterns
             let pytest_config = read_pytest_config(&rootpath);
+            let testpaths = pytest_config.existing_testpaths(&rootpath);
             let python_files = if pytest_config.python_files.is_empty() {
                 default_python_files()
             } else {
@@ -232,8 +233,14 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
                 pytest_config.python_functions
             };
 
-            // For execution, still use file-based collection (worker handles discovery)
-            let test_files = collect_test_files(&rootpath, &args.files, &python_files);
+            // For execution, still use file-based collection (worker handles discovery),
+            // over the same paths as the collection above
+            let paths = if args.files.is_empty() {
+                testpaths
+            } else {
+                args.files
+            };
+            let test_files = collect_test_files(&rootpath, &paths, &python_files);
 
             let config = NativeRunnerConfig {
                 python_executable,
-- 
2.43.0


From 4286f95f951afb0946f931c536bd589727600083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:03 +0000
Subject: [PATCH 37/67] fix: collection does not follow links in circles, as
 the native runner does not

---
 src/collection/nodes.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index ec36176..d49993a 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -90,7 +90,7 @@ impl Session {
     fn collect_path(self: &Rc<Self>, path: &Path) -> CollectionResult<Vec<Box<dyn Collector>>> {
         // What was asked for is collected whatever its name; only what lies below can be ignored
         if path.is_dir() {
-            let dir = Directory::new(path.to_path_buf(), Rc::clone(self));
+            let dir = Directory::new(path.to_path_buf(), Rc::clone(self), &[]);
             Ok(vec![Box::new(dir)])
         } else if path.is_file() && self.is_python_file(path) {
             let module = Module::new(path.to_path_buf(), Rc::clone(self));
@@ -169,11 +169,16 @@ impl Collector for Session {
 pub struct Directory {
     pub path: PathBuf,
     pub nodeid: String,
+    /// The directories from the one that was asked for to this one, without links
+    real_paths: Vec<PathBuf>,
     parent_session: Rc<Session>,
 }
 
 impl Directory {
-    fn new(path: PathBuf, session: Rc<Session>) -> Self {
+    fn new(path: PathBuf, session: Rc<Session>, parents: &[PathBuf]) -> Self {
+        let mut real_paths = parents.to_vec();
+        real_paths.extend(path.canonicalize());
+
         let nodeid = path
             .strip_prefix(&session.rootpath)
             .unwrap_or(&path)
@@ -183,6 +188,7 @@ impl Directory {
         Self {
             path,
             nodeid,
+            real_paths,
             parent_session: session,
         }
     }
@@ -230,7 +236,15 @@ impl Collector for Directory {
             }
 
             if path.is_dir() {
-                let dir = Directory::new(path, Rc::clone(&self.parent_session));
+                // A link to one of the directories on the way here would be entered again and again
+                if path.is_symlink()
+                    && path
+                        .canonicalize()
+                        .is_ok_and(|target| self.real_paths.contains(&target))
+                {
+                    continue;
+                }
+                let dir = Directory::new(path, Rc::clone(&self.parent_session), &self.real_paths);
                 items.push(Box::new(dir) as Box<dyn Collector>);
             } else if path.is_file() && self.session().is_python_file(&path) {
                 let module = Module::new(path, Rc::clone(&self.parent_session));
-- 
2.43.0


From fd6f4df8c5d2c1dbfdefdbdf7200ae42f23a8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 38/67] fix: overridden, repeated and disabled tests are listed
 as Python resolves them, each once

---
 src/python_discovery/semantic_analyzer.rs | 291 +++++++++++-----------
 1 file changed, 150 insertions(+), 141 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index ae8d7d8..c04896d 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -55,6 +55,8 @@ pub struct TestClassInfo {
     pub name: String,
     pub has_init: bool,
     pub test_methods: Vec<TestMethodInfo>,
+    /// Test names bound to a plain value, such as `test_x = None`, which hides an inherited method
+    pub disabled_methods: HashSet<String>,
     pub base_classes: Vec<ResolvedBaseClass>,
     /// Class-level decorator specs
     pub class_specs: MethodCasesInfo,
@@ -130,7 +132,8 @@ impl SemanticTestDiscovery {
         let mut all_tests = Vec::new();
 
         // Collect module-level test functions
-        for stmt in &ast_module.body {
+        let definitions = Self::lasting_definitions(&ast_module);
+        for &stmt in &definitions {
             if let Stmt::FunctionDef(func) = stmt {
                 if self.is_test_function(func.name.as_str()) {
                     let cases_expansion =
@@ -147,13 +150,12 @@ impl SemanticTestDiscovery {
         }
 
         // Collect test methods from classes
-        for stmt in &ast_module.body {
+        for &stmt in &definitions {
             if let Stmt::ClassDef(class_def) = stmt {
                 if let Some(tests) = self.collect_class_tests(
                     class_def,
                     &module_path,
                     &imports,
-                    &semantic,
                     module_resolver,
                     &resolver,
                 )? {
@@ -247,7 +249,8 @@ impl SemanticTestDiscovery {
 
                 if self.is_test_class(class_name) {
                     let has_init = self.class_has_init(class_def);
-                    let test_methods = self.collect_test_methods(class_def, resolver);
+                    let (test_methods, disabled_methods) =
+                        self.collect_test_methods(class_def, resolver);
                     let class_specs =
                         parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
                     let imports = self.collect_imports_from_module(module);
@@ -258,6 +261,7 @@ impl SemanticTestDiscovery {
                         name: class_name.to_string(),
                         has_init,
                         test_methods,
+                        disabled_methods,
                         base_classes,
                         class_specs,
                     };
@@ -271,7 +275,8 @@ impl SemanticTestDiscovery {
         Ok(())
     }
 
-    /// Collect test methods from a class (method-level specs only, not expanded).
+    /// Collect test methods from a class (method-level specs only, not expanded), and the test
+    /// names that are bound to a plain value instead. The last definition of a name counts.
     ///
     /// This stores only method-level decorator specs, allowing them to be combined
     /// with child class decorators during inheritance resolution.
@@ -279,8 +284,9 @@ impl SemanticTestDiscovery {
         &self,
         class_def: &StmtClassDef,
         resolver: &ConstantResolver,
-    ) -> Vec<TestMethodInfo> {
-        let mut methods = Vec::new();
+    ) -> (Vec<TestMethodInfo>, HashSet<String>) {
+        let mut methods: Vec<TestMethodInfo> = Vec::new();
+        let mut disabled = HashSet::new();
 
         for stmt in &class_def.body {
             if let Stmt::FunctionDef(func) = stmt {
@@ -289,16 +295,70 @@ impl SemanticTestDiscovery {
                     // Store only method-level specs (not combined with class)
                     let method_specs =
                         parse_decorators_to_specs(&func.decorator_list, Some(resolver));
+                    methods.retain(|method| method.name != method_name);
+                    disabled.remove(method_name);
                     methods.push(TestMethodInfo {
                         name: method_name.to_string(),
                         line: func.range().start().to_u32() as usize,
                         method_specs,
                     });
                 }
+            } else if let Some(name) = Self::plain_value_name(stmt) {
+                if self.is_test_function(name) {
+                    methods.retain(|method| method.name != name);
+                    disabled.insert(name.to_string());
+                }
             }
         }
 
-        methods
+        (methods, disabled)
+    }
+
+    /// The name that a statement like `name = None` binds to a value that is no function or class
+    fn plain_value_name(stmt: &Stmt) -> Option<&str> {
+        let (target, value) = match stmt {
+            Stmt::Assign(assign) => match assign.targets.as_slice() {
+                [target] => (target, &assign.value),
+                _ => return None,
+            },
+            Stmt::AnnAssign(assign) => (assign.target.as_ref(), assign.value.as_ref()?),
+            _ => return None,
+        };
+        match (target, value.as_ref()) {
+            (
+                Expr::Name(name),
+                Expr::NoneLiteral(_)
+                | Expr::BooleanLiteral(_)
+                | Expr::NumberLiteral(_)
+                | Expr::StringLiteral(_),
+            ) => Some(name.id.as_str()),
+            _ => None,
+        }
+    }
+
+    /// The statements of a module that define a function or class, except those whose name a later
+    /// statement binds again
+    fn lasting_definitions(module: &ModModule) -> Vec<&Stmt> {
+        let defined_name = |stmt: &'_ Stmt| match stmt {
+            Stmt::FunctionDef(func) => Some(func.name.to_string()),
+            Stmt::ClassDef(class) => Some(class.name.to_string()),
+            _ => Self::plain_value_name(stmt).map(String::from),
+        };
+        let mut last = HashMap::new();
+        for (index, stmt) in module.body.iter().enumerate() {
+            if let Some(name) = defined_name(stmt) {
+                last.insert(name, index);
+            }
+        }
+        module
+            .body
+            .iter()
+            .enumerate()
+            .filter(|(index, stmt)| {
+                defined_name(stmt).is_some_and(|name| last.get(&name) == Some(index))
+            })
+            .map(|(_, stmt)| stmt)
+            .collect()
     }
 
     /// Collect base class names from a class definition
@@ -344,7 +404,6 @@ impl SemanticTestDiscovery {
         class_def: &StmtClassDef,
         current_module_path: &[String],
         imports: &HashMap<String, ImportInfo>,
-        semantic: &SemanticModel,
         module_resolver: &mut ModuleResolver,
         resolver: &ConstantResolver,
     ) -> CollectionResult<Option<Vec<TestInfo>>> {
@@ -376,86 +435,37 @@ impl SemanticTestDiscovery {
         // Parse class-level decorators once
         let class_specs = parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
 
-        // Collect methods defined directly in this class (to filter inherited methods)
-        let own_method_names: std::collections::HashSet<String> = class_def
-            .body
+        // As in Python, the first class in method resolution order that binds a name decides what it is.
+        // Methods are listed from the most basic class to this one.
+        let key = (current_module_path.to_vec(), class_name.to_string());
+        let mro = self.linearize(&key, module_resolver, &mut Vec::new())?;
+        let infos: Vec<&TestClassInfo> = mro
             .iter()
-            .filter_map(|stmt| {
-                if let Stmt::FunctionDef(func) = stmt {
-                    let name = func.name.as_str();
-                    if self.is_test_function(name) {
-                        return Some(name.to_string());
-                    }
-                }
-                None
-            })
+            .filter_map(|key| self.class_cache.get(key))
             .collect();
 
         let mut all_tests = Vec::new();
-
-        // Collect inherited methods
-        if let Some(arguments) = &class_def.arguments {
-            for base_expr in arguments.args.iter() {
-                let resolved =
-                    self.resolve_base_class(base_expr, current_module_path, imports, semantic)?;
-
-                match resolved {
-                    Some(resolved) => {
-                        // Skip inheritance analysis for known stdlib modules that we can't analyze
-                        if self.is_stdlib_module_to_skip(&resolved.module_path) {
-                            continue;
-                        }
-
-                        // Get method specs from the base class (not yet combined with class decorators)
-                        if let Some(base_methods) =
-                            self.get_base_class_methods(&resolved, module_resolver)?
-                        {
-                            for method in base_methods {
-                                // Skip if this method is overridden in the child class
-                                if own_method_names.contains(&method.name) {
-                                    continue;
-                                }
-
-                                // Combine CHILD class specs with PARENT method specs
-                                // This is the key fix: inherited methods get the child's class decorators
-                                let cases_expansion =
-                                    combine_and_expand_specs(&class_specs, &method.method_specs);
-
-                                all_tests.push(TestInfo {
-                                    name: method.name.clone(),
-                                    line: method.line,
-                                    is_method: true,
-                                    class_name: Some(class_name.to_string()),
-                                    cases_expansion,
-                                });
-                            }
-                        }
-                    }
-                    None => {
-                        // Skip unresolvable base class expressions
-                        continue;
-                    }
+        for (index, info) in infos.iter().enumerate().rev() {
+            for method in &info.test_methods {
+                let overridden = infos[..index].iter().any(|derived| {
+                    derived.disabled_methods.contains(&method.name)
+                        || derived.test_methods.iter().any(|m| m.name == method.name)
+                });
+                if overridden {
+                    continue;
                 }
-            }
-        }
 
-        // Collect methods defined in this class
-        for stmt in &class_def.body {
-            if let Stmt::FunctionDef(func) = stmt {
-                let method_name = func.name.as_str();
-                if self.is_test_function(method_name) {
-                    let method_specs =
-                        parse_decorators_to_specs(&func.decorator_list, Some(resolver));
-                    let cases_expansion = combine_and_expand_specs(&class_specs, &method_specs);
-
-                    all_tests.push(TestInfo {
-                        name: method_name.to_string(),
-                        line: func.range().start().to_u32() as usize,
-                        is_method: true,
-                        class_name: Some(class_name.to_string()),
-                        cases_expansion,
-                    });
-                }
+                // Combine CHILD class specs with PARENT method specs
+                // This is the key fix: inherited methods get the child's class decorators
+                let cases_expansion = combine_and_expand_specs(&class_specs, &method.method_specs);
+
+                all_tests.push(TestInfo {
+                    name: method.name.clone(),
+                    line: method.line,
+                    is_method: true,
+                    class_name: Some(class_name.to_string()),
+                    cases_expansion,
+                });
             }
         }
 
@@ -580,73 +590,68 @@ impl SemanticTestDiscovery {
         Ok(false)
     }
 
-    /// Get test methods from a base class, including inherited methods
-    fn get_base_class_methods(
-        &mut self,
-        resolved: &ResolvedBaseClass,
-        module_resolver: &mut ModuleResolver,
-    ) -> CollectionResult<Option<Vec<TestMethodInfo>>> {
-        let mut visited = HashSet::new();
-        self.get_base_class_methods_impl(resolved, module_resolver, &mut visited)
-    }
-
-    /// Internal implementation of get_base_class_methods with cycle detection
-    fn get_base_class_methods_impl(
+    /// Method resolution order of a class, without the classes that cannot be analyzed.
+    ///
+    /// `path` holds the classes that are being resolved, for cycle detection.
+    fn linearize(
         &mut self,
-        resolved: &ResolvedBaseClass,
+        key: &(Vec<String>, String),
         module_resolver: &mut ModuleResolver,
-        visited: &mut HashSet<(Vec<String>, String)>,
-    ) -> CollectionResult<Option<Vec<TestMethodInfo>>> {
-        if self.is_stdlib_module_to_skip(&resolved.module_path) {
-            return Ok(None);
-        }
-
-        // Check for cycles
-        let key = (resolved.module_path.clone(), resolved.class_name.clone());
-        if visited.contains(&key) {
+        path: &mut Vec<(Vec<String>, String)>,
+    ) -> CollectionResult<Vec<(Vec<String>, String)>> {
+        if path.contains(key) {
             // Cycle detected - this is an error condition
             return Err(CollectionError::ParseError(format!(
                 "Circular inheritance detected in class hierarchy involving '{}'",
-                resolved.class_name
+                key.1
             )));
         }
-        visited.insert(key.clone());
-
-        if !resolved.is_local {
-            // Load the external module if needed
-            self.ensure_module_loaded(&resolved.module_path, module_resolver)?;
-        }
-
-        // Get the base class info
-        let base_info = match self.class_cache.get(&key) {
-            Some(info) => info.clone(),
-            None => {
-                // Remove from visited before early return to allow sibling branches
-                // to process this class without false cycle detection
-                visited.remove(&key);
-                return Ok(None);
-            }
+        let Some(info) = self.class_cache.get(key) else {
+            return Ok(vec![key.clone()]);
         };
-
-        let mut all_methods = Vec::new();
-
-        // First, recursively get methods from this class's base classes
-        for base_class in &base_info.base_classes {
-            if let Some(parent_methods) =
-                self.get_base_class_methods_impl(base_class, module_resolver, visited)?
-            {
-                all_methods.extend(parent_methods);
+        let base_classes = info.base_classes.clone();
+
+        path.push(key.clone());
+        let mut bases = Vec::new();
+        let mut sequences = Vec::new();
+        for base in &base_classes {
+            // Skip inheritance analysis for known stdlib modules that we can't analyze
+            if self.is_stdlib_module_to_skip(&base.module_path) {
+                continue;
+            }
+            if !base.is_local {
+                // Load the external module if needed
+                self.ensure_module_loaded(&base.module_path, module_resolver)?;
+            }
+            let base_key = (base.module_path.clone(), base.class_name.clone());
+            if self.class_cache.contains_key(&base_key) {
+                sequences.push(self.linearize(&base_key, module_resolver, path)?);
+                bases.push(base_key);
             }
         }
-
-        // Then add this class's own methods
-        all_methods.extend(base_info.test_methods.clone());
-
-        // Remove from visited after processing to allow sibling branches in diamond
-        // inheritance patterns to revisit this class without false cycle detection
-        visited.remove(&key);
-
-        Ok(Some(all_methods))
+        path.pop();
+        sequences.push(bases);
+
+        // C3 merge: take the first head that no other sequence still has further back
+        let mut mro = vec![key.clone()];
+        loop {
+            sequences.retain(|sequence| !sequence.is_empty());
+            let Some(first) = sequences.first() else {
+                break;
+            };
+            let next = sequences
+                .iter()
+                .map(|sequence| &sequence[0])
+                .find(|head| !sequences.iter().any(|other| other[1..].contains(head)))
+                // Python rejects such a class; any order will do
+                .unwrap_or(&first[0])
+                .clone();
+            for sequence in &mut sequences {
+                sequence.retain(|class| *class != next);
+            }
+            mro.push(next);
+        }
+        Ok(mro)
     }
 
     /// Ensure a module is loaded and its test classes are cached
@@ -673,6 +678,7 @@ impl SemanticTestDiscovery {
                             name: String::new(),
                             has_init: false,
                             test_methods: vec![],
+                            disabled_methods: HashSet::new(),
                             base_classes: vec![],
                             class_specs: MethodCasesInfo::NotDecorated,
                         },
@@ -693,7 +699,8 @@ impl SemanticTestDiscovery {
                     // Always collect class info for external modules, even if they don't match test patterns
                     // They might be used as base classes
                     let has_init = self.class_has_init(class_def);
-                    let test_methods = self.collect_test_methods(class_def, &external_resolver);
+                    let (test_methods, disabled_methods) =
+                        self.collect_test_methods(class_def, &external_resolver);
                     let class_specs = parse_decorators_to_specs(
                         &class_def.decorator_list,
                         Some(&external_resolver),
@@ -706,6 +713,7 @@ impl SemanticTestDiscovery {
                         name: class_name.to_string(),
                         has_init,
                         test_methods,
+                        disabled_methods,
                         base_classes,
                         class_specs,
                     };
@@ -723,6 +731,7 @@ impl SemanticTestDiscovery {
                 name: String::new(),
                 has_init: false,
                 test_methods: vec![],
+                disabled_methods: HashSet::new(),
                 base_classes: vec![],
                 class_specs: MethodCasesInfo::NotDecorated,
             },
-- 
2.43.0


From 0c82669f835e246fdded9a875eee534c48c0acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 39/67] fix: tests and constructors are inherited through local
 classes that are no test classes themselves

---
 src/python_discovery/semantic_analyzer.rs | 47 ++++++++++++-----------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index c04896d..42c1360 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -247,28 +247,31 @@ impl SemanticTestDiscovery {
             if let Stmt::ClassDef(class_def) = stmt {
                 let class_name = class_def.name.as_str();
 
-                if self.is_test_class(class_name) {
-                    let has_init = self.class_has_init(class_def);
-                    let (test_methods, disabled_methods) =
-                        self.collect_test_methods(class_def, resolver);
-                    let class_specs =
-                        parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
-                    let imports = self.collect_imports_from_module(module);
-                    let base_classes =
-                        self.collect_base_class_names(class_def, module_path, &imports)?;
-
-                    let info = TestClassInfo {
-                        name: class_name.to_string(),
-                        has_init,
-                        test_methods,
-                        disabled_methods,
-                        base_classes,
-                        class_specs,
-                    };
-
-                    self.class_cache
-                        .insert((module_path.to_vec(), class_name.to_string()), info);
-                }
+                let has_init = self.class_has_init(class_def);
+                // Only test classes of this module contribute tests of their own. The others still
+                // count as a link to the test classes and constructors they inherit from.
+                let (test_methods, disabled_methods) = if self.is_test_class(class_name) {
+                    self.collect_test_methods(class_def, resolver)
+                } else {
+                    Default::default()
+                };
+                let class_specs =
+                    parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
+                let imports = self.collect_imports_from_module(module);
+                let base_classes =
+                    self.collect_base_class_names(class_def, module_path, &imports)?;
+
+                let info = TestClassInfo {
+                    name: class_name.to_string(),
+                    has_init,
+                    test_methods,
+                    disabled_methods,
+                    base_classes,
+                    class_specs,
+                };
+
+                self.class_cache
+                    .insert((module_path.to_vec(), class_name.to_string()), info);
             }
         }
 
-- 
2.43.0


From a8ae20488163e44f6bb574bce3077221ea3e0bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 40/67] fix: base classes are found through every form of
 import and re-export

---
 src/python_discovery/semantic_analyzer.rs | 186 +++++++++++++++-------
 1 file changed, 128 insertions(+), 58 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 42c1360..bd61db3 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -27,6 +27,27 @@ struct ImportInfo {
     imported_name: String,
     /// The level of relative import (0 for absolute, 1 for '.', 2 for '..', etc.)
     relative_level: usize,
+    /// Whether the import is written in a package's `__init__.py`, where '.' is the package itself
+    in_package: bool,
+}
+
+impl ImportInfo {
+    /// Absolute path of what is imported: a module, or a name in a module
+    fn absolute_path(&self, current_module_path: &[String]) -> CollectionResult<Vec<String>> {
+        let mut importing = current_module_path.to_vec();
+        if self.in_package {
+            importing.push("__init__".to_string());
+        }
+        let mut path = SemanticTestDiscovery::resolve_relative_module_path(
+            &importing,
+            self.relative_level,
+            &self.module_path,
+        )?;
+        if !self.imported_name.is_empty() {
+            path.push(self.imported_name.clone());
+        }
+        Ok(path)
+    }
 }
 
 /// Resolved base class information
@@ -67,6 +88,8 @@ pub struct SemanticTestDiscovery {
     config: TestDiscoveryConfig,
     /// Cache of test classes by module path and class name
     class_cache: HashMap<(Vec<String>, String), TestClassInfo>,
+    /// Imports of each loaded module, through which it offers classes of other modules
+    import_cache: HashMap<Vec<String>, HashMap<String, ImportInfo>>,
     /// Warnings collected during discovery
     warnings: Vec<CollectionWarning>,
     /// Current file path for warning generation
@@ -78,6 +101,7 @@ impl SemanticTestDiscovery {
         Self {
             config,
             class_cache: HashMap::new(),
+            import_cache: HashMap::new(),
             warnings: Vec::new(),
             current_file_path: None,
         }
@@ -123,10 +147,10 @@ impl SemanticTestDiscovery {
         let semantic = SemanticModel::new(&typing_modules, path, semantic_module);
 
         // First pass: collect imports
-        let imports = self.collect_imports(&ast_module, &semantic);
+        let imports = self.collect_imports(&ast_module, path, &semantic);
 
         // Second pass: collect test classes
-        self.collect_test_classes(&ast_module, &module_path, &resolver)?;
+        self.collect_test_classes(&ast_module, &module_path, &imports, &resolver)?;
 
         // Third pass: resolve inheritance and collect all tests
         let mut all_tests = Vec::new();
@@ -168,21 +192,27 @@ impl SemanticTestDiscovery {
     }
 
     /// Helper to collect imports from a module without requiring a semantic model
-    fn collect_imports_from_module(&self, module: &ModModule) -> HashMap<String, ImportInfo> {
-        self.collect_imports_impl(module)
+    fn collect_imports_from_module(
+        &self,
+        module: &ModModule,
+        path: &Path,
+    ) -> HashMap<String, ImportInfo> {
+        self.collect_imports_impl(module, path)
     }
 
     /// Collect imports from the module
     fn collect_imports(
         &self,
         module: &ModModule,
+        path: &Path,
         _semantic: &SemanticModel,
     ) -> HashMap<String, ImportInfo> {
-        self.collect_imports_impl(module)
+        self.collect_imports_impl(module, path)
     }
 
     /// Internal implementation of import collection
-    fn collect_imports_impl(&self, module: &ModModule) -> HashMap<String, ImportInfo> {
+    fn collect_imports_impl(&self, module: &ModModule, path: &Path) -> HashMap<String, ImportInfo> {
+        let in_package = path.file_name() == Some(std::ffi::OsStr::new("__init__.py"));
         let mut imports = HashMap::new();
 
         for stmt in &module.body {
@@ -209,6 +239,7 @@ impl SemanticTestDiscovery {
                                 module_path: module_path.clone(),
                                 imported_name,
                                 relative_level: level,
+                                in_package,
                             },
                         );
                     }
@@ -225,6 +256,7 @@ impl SemanticTestDiscovery {
                                 module_path: parts,
                                 imported_name: String::new(),
                                 relative_level: 0,
+                                in_package,
                             },
                         );
                     }
@@ -241,6 +273,7 @@ impl SemanticTestDiscovery {
         &mut self,
         module: &ModModule,
         module_path: &[String],
+        imports: &HashMap<String, ImportInfo>,
         resolver: &ConstantResolver,
     ) -> CollectionResult<()> {
         for stmt in &module.body {
@@ -257,9 +290,8 @@ impl SemanticTestDiscovery {
                 };
                 let class_specs =
                     parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
-                let imports = self.collect_imports_from_module(module);
                 let base_classes =
-                    self.collect_base_class_names(class_def, module_path, &imports)?;
+                    self.collect_base_class_names(class_def, module_path, imports)?;
 
                 let info = TestClassInfo {
                     name: class_name.to_string(),
@@ -551,19 +583,17 @@ impl SemanticTestDiscovery {
             return Ok(false);
         }
 
+        let Some(key) = self.find_class(resolved, module_resolver)? else {
+            return Ok(false);
+        };
+
         // Check for cycles
-        let key = (resolved.module_path.clone(), resolved.class_name.clone());
         if visited.contains(&key) {
             // Cycle detected - assume no init to break the cycle
             return Ok(false);
         }
         visited.insert(key.clone());
 
-        if !resolved.is_local {
-            // Load the external module if needed
-            self.ensure_module_loaded(&resolved.module_path, module_resolver)?;
-        }
-
         // Get the base class info
         let base_info = match self.class_cache.get(&key) {
             Some(info) => info.clone(),
@@ -593,6 +623,53 @@ impl SemanticTestDiscovery {
         Ok(false)
     }
 
+    /// Cache key of a class, which the module named may itself have imported from another one.
+    fn find_class(
+        &mut self,
+        class: &ResolvedBaseClass,
+        module_resolver: &mut ModuleResolver,
+    ) -> CollectionResult<Option<(Vec<String>, String)>> {
+        let mut class = class.clone();
+        let mut visited = HashSet::new();
+
+        while !self.is_stdlib_module_to_skip(&class.module_path) {
+            if !class.is_local {
+                // Load the external module if needed
+                self.ensure_module_loaded(&class.module_path, module_resolver)?;
+            }
+            let key = (class.module_path, class.class_name);
+            if self.class_cache.contains_key(&key) {
+                return Ok(Some(key));
+            }
+            let Some(import) = self
+                .import_cache
+                .get(&key.0)
+                .and_then(|imports| imports.get(&key.1))
+            else {
+                break;
+            };
+            let Some(imported) = Self::class_at(import.absolute_path(&key.0)?) else {
+                break;
+            };
+            if !visited.insert(key) {
+                break;
+            }
+            class = imported;
+        }
+
+        Ok(None)
+    }
+
+    /// The class with an absolute path
+    fn class_at(mut path: Vec<String>) -> Option<ResolvedBaseClass> {
+        let class_name = path.pop()?;
+        Some(ResolvedBaseClass {
+            module_path: path,
+            class_name,
+            is_local: false,
+        })
+    }
+
     /// Method resolution order of a class, without the classes that cannot be analyzed.
     ///
     /// `path` holds the classes that are being resolved, for cycle detection.
@@ -622,12 +699,7 @@ impl SemanticTestDiscovery {
             if self.is_stdlib_module_to_skip(&base.module_path) {
                 continue;
             }
-            if !base.is_local {
-                // Load the external module if needed
-                self.ensure_module_loaded(&base.module_path, module_resolver)?;
-            }
-            let base_key = (base.module_path.clone(), base.class_name.clone());
-            if self.class_cache.contains_key(&base_key) {
+            if let Some(base_key) = self.find_class(base, module_resolver)? {
                 sequences.push(self.linearize(&base_key, module_resolver, path)?);
                 bases.push(base_key);
             }
@@ -694,6 +766,9 @@ impl SemanticTestDiscovery {
             // Build resolver for constants in this external module
             let external_resolver = ConstantResolver::from_module(&parsed_module.module);
 
+            let imports =
+                self.collect_imports_from_module(&parsed_module.module, &parsed_module.path);
+
             // Extract test class information without storing the module
             for stmt in &parsed_module.module.body {
                 if let Stmt::ClassDef(class_def) = stmt {
@@ -708,7 +783,6 @@ impl SemanticTestDiscovery {
                         &class_def.decorator_list,
                         Some(&external_resolver),
                     );
-                    let imports = self.collect_imports_from_module(&parsed_module.module);
                     let base_classes =
                         self.collect_base_class_names(class_def, module_path, &imports)?;
 
@@ -725,6 +799,8 @@ impl SemanticTestDiscovery {
                         .insert((module_path.to_vec(), class_name.to_string()), info);
                 }
             }
+
+            self.import_cache.insert(module_path.to_vec(), imports);
         }
 
         // Mark module as loaded
@@ -756,23 +832,9 @@ impl SemanticTestDiscovery {
                 let name = name_expr.id.as_str();
                 // Check if it's an imported class
                 if let Some(import_info) = imports.get(name) {
-                    // Handle relative imports by resolving them to absolute paths
-                    let module_path = if import_info.relative_level > 0 {
-                        // Resolve relative import to absolute path
-                        Self::resolve_relative_module_path(
-                            current_module_path,
-                            import_info.relative_level,
-                            &import_info.module_path,
-                        )?
-                    } else {
-                        import_info.module_path.clone()
-                    };
-
-                    return Ok(Some(ResolvedBaseClass {
-                        module_path,
-                        class_name: import_info.imported_name.clone(),
-                        is_local: false,
-                    }));
+                    return Ok(Self::class_at(
+                        import_info.absolute_path(current_module_path)?,
+                    ));
                 }
 
                 // Otherwise, it's a local class
@@ -783,28 +845,23 @@ impl SemanticTestDiscovery {
                 }))
             }
             Expr::Attribute(attr_expr) => {
-                // Handle module.Class pattern
-                if let Expr::Name(module_name) = &*attr_expr.value {
-                    if let Some(import_info) = imports.get(module_name.id.as_str()) {
-                        // Handle relative imports
-                        let module_path = if import_info.relative_level > 0 {
-                            Self::resolve_relative_module_path(
-                                current_module_path,
-                                import_info.relative_level,
-                                &import_info.module_path,
-                            )?
-                        } else {
-                            import_info.module_path.clone()
-                        };
-
-                        return Ok(Some(ResolvedBaseClass {
-                            module_path,
-                            class_name: attr_expr.attr.to_string(),
-                            is_local: false,
-                        }));
+                // Handle module.Class and package.module.Class patterns, where the import may name
+                // any leading part (`import package.module`, `from package import module`, ...)
+                let Some(mut dotted) = Self::dotted_path(&attr_expr.value) else {
+                    return Ok(None);
+                };
+                let mut rest = vec![attr_expr.attr.to_string()];
+                loop {
+                    if let Some(import_info) = imports.get(&dotted.join(".")) {
+                        let mut path = import_info.absolute_path(current_module_path)?;
+                        path.extend(rest);
+                        return Ok(Self::class_at(path));
+                    }
+                    match dotted.pop() {
+                        Some(part) => rest.insert(0, part),
+                        None => return Ok(None),
                     }
                 }
-                Ok(None)
             }
             Expr::Subscript(subscript_expr) => {
                 // Handle parameterized generics like GenericBase[T] by resolving the base type
@@ -819,6 +876,19 @@ impl SemanticTestDiscovery {
         }
     }
 
+    /// Convert an attribute chain to a path: `a.b.c` -> `["a", "b", "c"]`
+    fn dotted_path(expr: &Expr) -> Option<Vec<String>> {
+        match expr {
+            Expr::Name(name) => Some(vec![name.id.to_string()]),
+            Expr::Attribute(attr) => {
+                let mut path = Self::dotted_path(&attr.value)?;
+                path.push(attr.attr.to_string());
+                Some(path)
+            }
+            _ => None,
+        }
+    }
+
     /// Helper to resolve relative imports to absolute module paths
     fn resolve_relative_module_path(
         current_module_path: &[String],
-- 
2.43.0


From f93ff765b87d9a059ebb88b5a1f7f53ae2cc8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 41/67] fix: base classes are found in helper modules beside
 the test file

---
 src/python_discovery/discovery.rs       | 8 ++++++++
 src/python_discovery/module_resolver.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/python_discovery/discovery.rs b/src/python_discovery/discovery.rs
index 185d8a4..1b7b573 100644
--- a/src/python_discovery/discovery.rs
+++ b/src/python_discovery/discovery.rs
@@ -67,6 +67,14 @@ pub fn discover_tests_with_inheritance(
 ) -> CollectionResult<(Vec<TestInfo>, Vec<CollectionWarning>)> {
     let module_path = path_to_module_path(path, root_path);
     let mut module_resolver = ModuleResolver::new(root_path)?;
+    // The file is imported from the directory that holds it, or the outermost package it belongs to
+    if let Some(import_dir) = path
+        .ancestors()
+        .skip(1)
+        .find(|dir| !dir.join("__init__.py").exists())
+    {
+        module_resolver.search_first(import_dir);
+    }
     let mut discovery = SemanticTestDiscovery::new(config.clone());
 
     discovery.discover_tests(path, source, module_path, &mut module_resolver)
diff --git a/src/python_discovery/module_resolver.rs b/src/python_discovery/module_resolver.rs
index 96aa898..81f000a 100644
--- a/src/python_discovery/module_resolver.rs
+++ b/src/python_discovery/module_resolver.rs
@@ -41,6 +41,11 @@ impl ModuleResolver {
         })
     }
 
+    /// Search a directory before all others, as Python does with the directory a test file is imported from
+    pub fn search_first(&mut self, directory: &Path) {
+        self.search_paths.insert(0, directory.to_path_buf());
+    }
+
     /// Resolve a module path to a file and load it
     pub fn resolve_and_load(&mut self, module_path: &[String]) -> CollectionResult<&ParsedModule> {
         if !self.cache.contains_key(module_path) {
-- 
2.43.0


From c56e3e046052e662af45345c9b1df4b807897ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 42/67] fix: tests inherited from a project's own package named
 like a standard module are listed

---
 src/python_discovery/module_resolver.rs   |  5 +++++
 src/python_discovery/semantic_analyzer.rs | 18 +++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/python_discovery/module_resolver.rs b/src/python_discovery/module_resolver.rs
index 81f000a..ab8b2a8 100644
--- a/src/python_discovery/module_resolver.rs
+++ b/src/python_discovery/module_resolver.rs
@@ -46,6 +46,11 @@ impl ModuleResolver {
         self.search_paths.insert(0, directory.to_path_buf());
     }
 
+    /// Whether a module is found in the search paths
+    pub fn can_resolve(&self, module_path: &[String]) -> bool {
+        self.resolve_with_search_paths(module_path).is_ok()
+    }
+
     /// Resolve a module path to a file and load it
     pub fn resolve_and_load(&mut self, module_path: &[String]) -> CollectionResult<&ParsedModule> {
         if !self.cache.contains_key(module_path) {
diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index bd61db3..d2ffa6f 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -542,7 +542,7 @@ impl SemanticTestDiscovery {
                 match resolved {
                     Some(resolved) => {
                         // Skip init check for known stdlib modules
-                        if self.is_stdlib_module_to_skip(&resolved.module_path) {
+                        if self.is_stdlib_module_to_skip(&resolved.module_path, module_resolver) {
                             // Assume stdlib modules like unittest.TestCase don't prevent collection
                             continue;
                         }
@@ -579,7 +579,7 @@ impl SemanticTestDiscovery {
         module_resolver: &mut ModuleResolver,
         visited: &mut HashSet<(Vec<String>, String)>,
     ) -> CollectionResult<bool> {
-        if self.is_stdlib_module_to_skip(&resolved.module_path) {
+        if self.is_stdlib_module_to_skip(&resolved.module_path, module_resolver) {
             return Ok(false);
         }
 
@@ -632,7 +632,7 @@ impl SemanticTestDiscovery {
         let mut class = class.clone();
         let mut visited = HashSet::new();
 
-        while !self.is_stdlib_module_to_skip(&class.module_path) {
+        while !self.is_stdlib_module_to_skip(&class.module_path, module_resolver) {
             if !class.is_local {
                 // Load the external module if needed
                 self.ensure_module_loaded(&class.module_path, module_resolver)?;
@@ -696,7 +696,7 @@ impl SemanticTestDiscovery {
         let mut sequences = Vec::new();
         for base in &base_classes {
             // Skip inheritance analysis for known stdlib modules that we can't analyze
-            if self.is_stdlib_module_to_skip(&base.module_path) {
+            if self.is_stdlib_module_to_skip(&base.module_path, module_resolver) {
                 continue;
             }
             if let Some(base_key) = self.find_class(base, module_resolver)? {
@@ -955,12 +955,16 @@ impl SemanticTestDiscovery {
     /// Check if a module should be skipped for inheritance analysis.
     ///
     /// Uses ruff's comprehensive stdlib detection to skip all standard library modules,
-    /// since the module resolver can only resolve project-local modules.
-    fn is_stdlib_module_to_skip(&self, module_path: &[String]) -> bool {
+    /// except those that a project's own module takes the place of, like a package `test`.
+    fn is_stdlib_module_to_skip(
+        &self,
+        module_path: &[String],
+        module_resolver: &ModuleResolver,
+    ) -> bool {
         if module_path.is_empty() {
             return false;
         }
-        is_known_standard_library(11, &module_path[0])
+        is_known_standard_library(11, &module_path[0]) && !module_resolver.can_resolve(module_path)
     }
 
     /// Helper to get alias name with fallback to the original name
-- 
2.43.0


From 9997ee0497aebe0dd88e64ea67ccafe34a1481d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 43/67] fix: case decorators of a base class apply to the
 classes inheriting from it

---
 src/python_discovery/cases.rs             | 16 ++++++++++++++++
 src/python_discovery/semantic_analyzer.rs | 23 +++++++++++------------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 626b763..9121966 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -53,6 +53,22 @@ pub enum MethodCasesInfo {
     CannotExpand(CannotExpandReason),
 }
 
+impl MethodCasesInfo {
+    /// These specs, then inner ones. Specs that cannot be parsed decide for all.
+    pub fn followed_by(self, inner: &MethodCasesInfo) -> MethodCasesInfo {
+        match (self, inner) {
+            (Self::CannotExpand(reason), _) => Self::CannotExpand(reason),
+            (Self::NotDecorated, inner) => inner.clone(),
+            (outer, Self::NotDecorated) => outer,
+            (_, Self::CannotExpand(reason)) => Self::CannotExpand(reason.clone()),
+            (Self::Specs(mut specs), Self::Specs(inner)) => {
+                specs.extend(inner.iter().cloned());
+                Self::Specs(specs)
+            }
+        }
+    }
+}
+
 /// Reason why cases could not be statically expanded.
 #[derive(Debug, Clone)]
 pub enum CannotExpandReason {
diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index d2ffa6f..2c6e111 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -176,13 +176,9 @@ impl SemanticTestDiscovery {
         // Collect test methods from classes
         for &stmt in &definitions {
             if let Stmt::ClassDef(class_def) = stmt {
-                if let Some(tests) = self.collect_class_tests(
-                    class_def,
-                    &module_path,
-                    &imports,
-                    module_resolver,
-                    &resolver,
-                )? {
+                if let Some(tests) =
+                    self.collect_class_tests(class_def, &module_path, &imports, module_resolver)?
+                {
                     all_tests.extend(tests);
                 }
             }
@@ -440,7 +436,6 @@ impl SemanticTestDiscovery {
         current_module_path: &[String],
         imports: &HashMap<String, ImportInfo>,
         module_resolver: &mut ModuleResolver,
-        resolver: &ConstantResolver,
     ) -> CollectionResult<Option<Vec<TestInfo>>> {
         let class_name = class_def.name.as_str();
 
@@ -467,9 +462,6 @@ impl SemanticTestDiscovery {
             return Ok(None);
         }
 
-        // Parse class-level decorators once
-        let class_specs = parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
-
         // As in Python, the first class in method resolution order that binds a name decides what it is.
         // Methods are listed from the most basic class to this one.
         let key = (current_module_path.to_vec(), class_name.to_string());
@@ -479,6 +471,13 @@ impl SemanticTestDiscovery {
             .filter_map(|key| self.class_cache.get(key))
             .collect();
 
+        // The decorators of the classes it inherits from apply to a class too, inside its own
+        let class_specs = infos
+            .iter()
+            .fold(MethodCasesInfo::NotDecorated, |specs, info| {
+                specs.followed_by(&info.class_specs)
+            });
+
         let mut all_tests = Vec::new();
         for (index, info) in infos.iter().enumerate().rev() {
             for method in &info.test_methods {
@@ -490,7 +489,7 @@ impl SemanticTestDiscovery {
                     continue;
                 }
 
-                // Combine CHILD class specs with PARENT method specs
+                // Combine class specs with method specs
                 // This is the key fix: inherited methods get the child's class decorators
                 let cases_expansion = combine_and_expand_specs(&class_specs, &method.method_specs);
 
-- 
2.43.0


From fdaba1b1f8ad33aa5d81cf4532630485b3c9f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 44/67] fix: warnings about skipped classes name the line of
 the class

---
 src/python_discovery/semantic_analyzer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 2c6e111..cf404f9 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -94,6 +94,8 @@ pub struct SemanticTestDiscovery {
     warnings: Vec<CollectionWarning>,
     /// Current file path for warning generation
     current_file_path: Option<String>,
+    /// Offsets of the line breaks in the current file, for warning generation
+    current_line_breaks: Vec<usize>,
 }
 
 impl SemanticTestDiscovery {
@@ -104,6 +106,7 @@ impl SemanticTestDiscovery {
             import_cache: HashMap::new(),
             warnings: Vec::new(),
             current_file_path: None,
+            current_line_breaks: Vec::new(),
         }
     }
 
@@ -117,6 +120,7 @@ impl SemanticTestDiscovery {
     ) -> CollectionResult<(Vec<TestInfo>, Vec<CollectionWarning>)> {
         // Store current file path for warning generation
         self.current_file_path = Some(path.to_string_lossy().to_string());
+        self.current_line_breaks = source.match_indices('\n').map(|(at, _)| at).collect();
 
         // Parse the module
         let parsed = parse(source, ParseOptions::from(Mode::Module)).map_err(|e| {
@@ -447,12 +451,14 @@ impl SemanticTestDiscovery {
         // Check if this class or any parent has __init__
         if self.should_skip_class(class_def, current_module_path, imports, module_resolver)? {
             // Add warning about skipped class
+            let offset = class_def.name.range().start().to_usize();
+            let line = self.current_line_breaks.partition_point(|&at| at < offset) + 1;
             let warning = CollectionWarning {
                 file_path: self
                     .current_file_path
                     .clone()
                     .unwrap_or_else(|| "unknown".to_string()),
-                line: class_def.range().start().to_u32() as usize + 1, // Convert 0-based to 1-based
+                line,
                 message: format!(
                     "cannot collect test class '{}' because it has a __init__ constructor",
                     class_name
-- 
2.43.0


From a38efcfaa6b55fd3eb64ccd82f5ad1f04222fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 45/67] fix: case decorators are recognized however pytest and
 rtest are imported

---
 src/python_discovery/cases.rs             | 11 +++--
 src/python_discovery/constant_resolver.rs | 49 +++++++++++++++++++++++
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 9121966..f690c72 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -234,7 +234,7 @@ fn parse_single_decorator(
         return DecoratorParseResult::NotCasesDecorator;
     };
 
-    if !is_cases_or_parametrize_call(&call.func) {
+    if !is_cases_or_parametrize_call(&call.func, resolver) {
         return DecoratorParseResult::NotCasesDecorator;
     }
 
@@ -275,8 +275,13 @@ fn parse_single_decorator(
     })
 }
 
-/// Check if the call func is `rtest.mark.cases` or `pytest.mark.parametrize`.
-fn is_cases_or_parametrize_call(func: &Expr) -> bool {
+/// Check if the call func is `rtest.mark.cases` or `pytest.mark.parametrize`, under whatever name
+/// it was imported.
+fn is_cases_or_parametrize_call(func: &Expr, resolver: Option<&ConstantResolver>) -> bool {
+    if let Some(path) = resolver.and_then(|resolver| resolver.imported_path(func)) {
+        return path == ["rtest", "mark", "cases"] || path == ["pytest", "mark", "parametrize"];
+    }
+
     let Expr::Attribute(ExprAttribute { attr, value, .. }) = func else {
         return false;
     };
diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index cbf97cf..c59cb15 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -66,6 +66,8 @@ impl ConstantScope {
 #[derive(Debug)]
 pub struct ConstantResolver {
     root: ConstantScope,
+    /// What each imported name stands for, e.g., `["pytest", "mark"]` for `mark`.
+    imports: HashMap<String, Vec<String>>,
 }
 
 impl ConstantResolver {
@@ -73,9 +75,19 @@ impl ConstantResolver {
     pub fn from_module(module: &ModModule) -> Self {
         Self {
             root: ConstantScope::from_statements(&module.body),
+            imports: imported_names(&module.body),
         }
     }
 
+    /// Absolute dotted path of an attribute chain, e.g., `["pytest", "mark", "parametrize"]` for
+    /// `mark.parametrize` after `from pytest import mark`.
+    pub fn imported_path(&self, expr: &Expr) -> Option<Vec<String>> {
+        let path = expr_to_path(expr)?;
+        let mut full = self.imports.get(&path[0])?.clone();
+        full.extend_from_slice(&path[1..]);
+        Some(full)
+    }
+
     /// Resolve an expression to a literal value.
     ///
     /// Returns `Some((value, source_path))` where `source_path` is the
@@ -94,6 +106,43 @@ impl ConstantResolver {
     }
 }
 
+/// Collect the names that a list of statements binds by absolute imports.
+fn imported_names(stmts: &[Stmt]) -> HashMap<String, Vec<String>> {
+    let mut names = HashMap::new();
+
+    for stmt in stmts {
+        match stmt {
+            Stmt::Import(import) => {
+                for alias in &import.names {
+                    let mut path: Vec<String> = alias.name.split('.').map(String::from).collect();
+                    let name = match &alias.asname {
+                        Some(asname) => asname.to_string(),
+                        None => {
+                            // `import a.b` binds `a`
+                            path.truncate(1);
+                            path[0].clone()
+                        }
+                    };
+                    names.insert(name, path);
+                }
+            }
+            Stmt::ImportFrom(import) if import.level == 0 => {
+                if let Some(module) = &import.module {
+                    for alias in &import.names {
+                        let mut path: Vec<String> = module.split('.').map(String::from).collect();
+                        path.push(alias.name.to_string());
+                        let name = alias.asname.as_ref().unwrap_or(&alias.name).to_string();
+                        names.insert(name, path);
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+
+    names
+}
+
 /// Convert an attribute chain to a path: `a.b.c` -> `["a", "b", "c"]`.
 fn expr_to_path(expr: &Expr) -> Option<Vec<String>> {
     match expr {
-- 
2.43.0


From 861f83d9382dfda04e6aea417b2164fdaa06022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 46/67] fix: a name pattern without wildcards is a prefix, as
 in pytest

---
 python/rtest/worker/runner.py   | 11 ++++++++---
 src/python_discovery/pattern.rs |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index b8a7bf3..ff2ffc3 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -74,11 +74,16 @@ def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
     return module
 
 
+def _matches(name: str, patterns: list[str]) -> bool:
+    """Check if a name matches any pattern: as in pytest, a pattern is a prefix, or has glob wildcards."""
+    return any(name.startswith(p) or (any(c in p for c in "*?[") and fnmatch.fnmatchcase(name, p)) for p in patterns)
+
+
 def _is_test_function(name: str, obj: object, patterns: list[str]) -> bool:
     """Check if an object is a test function based on patterns."""
     if not inspect.isfunction(obj):
         return False
-    return any(fnmatch.fnmatch(name, p) for p in patterns)
+    return _matches(name, patterns)
 
 
 def _has_constructor(cls: type) -> bool:
@@ -95,7 +100,7 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     """Check if an object is a test class based on patterns; like collection, leaves out classes with a constructor."""
     if not inspect.isclass(obj) or _has_constructor(obj):
         return False
-    return any(fnmatch.fnmatch(name, p) for p in patterns)
+    return _matches(name, patterns)
 
 
 def _pytest_marks(obj: object) -> list[object]:
@@ -188,7 +193,7 @@ def _discover_tests_in_module(
                     if method_name in seen_methods:
                         continue
                     # Check if method matches any python_functions pattern
-                    if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):
+                    if not _matches(method_name, python_functions):
                         continue
                     method_obj: object = getattr(class_obj, method_name)
                     if not (inspect.isfunction(method_obj) or inspect.ismethod(method_obj)):
diff --git a/src/python_discovery/pattern.rs b/src/python_discovery/pattern.rs
index 6a41cac..7f1546d 100644
--- a/src/python_discovery/pattern.rs
+++ b/src/python_discovery/pattern.rs
@@ -2,9 +2,9 @@
 
 use crate::collection::glob_match;
 
-/// Check if a name matches a pattern (supports glob wildcards)
+/// Check if a name matches a pattern: as in pytest, a pattern is a prefix, or has glob wildcards
 pub fn matches(pattern: &str, name: &str) -> bool {
-    glob_match(pattern, name)
+    name.starts_with(pattern) || (pattern.contains(['*', '?', '[']) && glob_match(pattern, name))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 145057da74779f6192f853d66b25a7ca35dc6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:54 +0000
Subject: [PATCH 47/67] fix: rtest's and pytest's case decorators on one test
 both apply, and classes have the cases of all their bases

---
 python/rtest/mark.py          | 66 ++++++++++++++++++++++-------------
 src/python_discovery/cases.rs | 53 +++++++++++++++++++---------
 2 files changed, 77 insertions(+), 42 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 5087501..a3f8515 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -50,6 +50,7 @@ class ParametrizeSpec:
     argnames: tuple[str, ...]
     argvalues: tuple[object, ...]
     ids: tuple[str | None, ...] | None  # None entries get a value-based ID
+    after_marks: int = 0  # How many pytest marks the function or class already had
 
 
 class PytestMarkerArgs(NamedTuple):
@@ -103,16 +104,14 @@ class Mark:
 
         materialized_ids: tuple[str | None, ...] | None = tuple(ids) if ids is not None else None
 
-        spec = ParametrizeSpec(
-            argnames=parsed_argnames,
-            argvalues=tuple(argvalues),
-            ids=materialized_ids,
-        )
+        values = tuple(argvalues)
 
         def decorator(func: F) -> F:
-            # A new list: the existing one may be shared with a base class or a wrapped function
-            cases_list: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", None) or []
-            func.__rtest_cases__ = [*cases_list, spec]  # type: ignore[union-attr]
+            # A new list: the existing one may be shared with a wrapped function. What a class
+            # inherits stays with the base class.
+            own = vars(func)
+            spec = ParametrizeSpec(parsed_argnames, values, materialized_ids, len(_as_sequence(own.get("pytestmark"))))
+            func.__rtest_cases__ = [*own.get("__rtest_cases__", []), spec]  # type: ignore[union-attr]
             return func
 
         return decorator
@@ -148,6 +147,13 @@ class Mark:
 mark = Mark()
 
 
+def _as_sequence(marks: object) -> Sequence[object]:
+    """The pytest marks of a function or class, which may also be a single mark."""
+    if marks is None:
+        return ()
+    return marks if isinstance(marks, (list, tuple)) else (marks,)
+
+
 def _deduplicate_ids(ids: list[str]) -> list[str]:
     """Deduplicate IDs by adding suffixes _1, _2, etc. for duplicates."""
     taken: set[str] = set(ids)
@@ -248,31 +254,38 @@ def _extract_pytest_marker_args(mark_args: tuple[object, ...], mark_kwargs: Mapp
 
 def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
     """Get parametrize specs of a function, or of a class itself, from rtest or pytest markers."""
-    # Check rtest markers first
-    rtest_specs: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", [])
-    if rtest_specs:
-        return rtest_specs
-
-    # Check pytest markers (with deprecation warning)
-    specs: list[ParametrizeSpec] = []
     if isinstance(func, type):
-        # A class carries its own marks after those of the classes it inherits from
-        holders = [vars(base).get("pytestmark", []) for base in reversed(func.__mro__)]
+        # A class carries its own cases after those of the classes it inherits from
+        holders = [
+            (vars(base).get("__rtest_cases__", []), vars(base).get("pytestmark")) for base in reversed(func.__mro__)
+        ]
     else:
-        holders = [getattr(func, "pytestmark", [])]
-    pytest_marks: list[object] = []
-    for own in holders:
-        pytest_marks.extend(own if isinstance(own, (list, tuple)) else [own])
-    for pytest_mark in pytest_marks:
-        if getattr(pytest_mark, "name", None) == "parametrize":
+        holders = [(getattr(func, "__rtest_cases__", []), getattr(func, "pytestmark", None))]
+
+    entries: list[object] = []
+    rtest_argnames: set[str] = set()
+    for rtest_specs, pytest_marks in holders:
+        # Both kinds of decorators apply, in the order they were written in. A test can have the
+        # same cases for both runners: rtest's come first.
+        rtest_argnames.update(name for spec in rtest_specs for name in spec.argnames)
+        own: list[object] = [*_as_sequence(pytest_marks)]
+        for added, spec in enumerate(rtest_specs):
+            own.insert(added + spec.after_marks, spec)
+        entries.extend(own)
+
+    specs: list[ParametrizeSpec] = []
+    for entry in entries:
+        if isinstance(entry, ParametrizeSpec):
+            specs.append(entry)
+        elif getattr(entry, "name", None) == "parametrize":
             warnings.warn(
                 PARAMETRIZE_DEPRECATION_MSG.format(func_name=func.__name__),
                 DeprecationWarning,
                 stacklevel=4,
             )
             # Convert pytest marker to ParametrizeSpec
-            mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
-            mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
+            mark_args: tuple[object, ...] = getattr(entry, "args", ())
+            mark_kwargs: MappingProxyType[str, object] = getattr(entry, "kwargs", MappingProxyType({}))
             argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args, mark_kwargs)
             ids_raw: object = mark_kwargs.get("ids")
 
@@ -282,6 +295,9 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
                 # Assume it's a sequence of strings - need type ignore for iteration on object
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
 
+            if not rtest_argnames.isdisjoint(parsed_argnames):
+                continue
+
             # Handle ids
             ids_tuple: tuple[str | None, ...] | None = None
             if ids_raw is not None and isinstance(ids_raw, (list, tuple)):
diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index f690c72..c5d0f54 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -135,22 +135,10 @@ pub fn parse_decorators_for_cases(
     decorators: &[Decorator],
     resolver: Option<&ConstantResolver>,
 ) -> CasesExpansion {
-    let mut specs = Vec::new();
-
-    for decorator in decorators {
-        match parse_single_decorator(decorator, resolver) {
-            DecoratorParseResult::CasesSpec(spec) => specs.push(spec),
-            DecoratorParseResult::CannotExpand(reason) => {
-                return CasesExpansion::CannotExpand(reason);
-            }
-            DecoratorParseResult::NotCasesDecorator => {}
-        }
-    }
-
-    if specs.is_empty() {
-        CasesExpansion::NotDecorated
-    } else {
-        CasesExpansion::Expanded(expand_cases(&specs))
+    match parse_decorators_to_specs(decorators, resolver) {
+        MethodCasesInfo::NotDecorated => CasesExpansion::NotDecorated,
+        MethodCasesInfo::Specs(specs) => CasesExpansion::Expanded(expand_cases(&specs)),
+        MethodCasesInfo::CannotExpand(reason) => CasesExpansion::CannotExpand(reason),
     }
 }
 
@@ -163,10 +151,17 @@ pub fn parse_decorators_to_specs(
     resolver: Option<&ConstantResolver>,
 ) -> MethodCasesInfo {
     let mut specs = Vec::new();
+    let mut rtest_argnames: Vec<String> = Vec::new();
 
     for decorator in decorators {
         match parse_single_decorator(decorator, resolver) {
-            DecoratorParseResult::CasesSpec(spec) => specs.push(spec),
+            DecoratorParseResult::CasesSpec(spec) => {
+                let from_rtest = is_rtest_cases(decorator, resolver);
+                if from_rtest {
+                    rtest_argnames.extend(spec.argnames.iter().cloned());
+                }
+                specs.push((from_rtest, spec));
+            }
             DecoratorParseResult::CannotExpand(reason) => {
                 return MethodCasesInfo::CannotExpand(reason);
             }
@@ -174,6 +169,19 @@ pub fn parse_decorators_to_specs(
         }
     }
 
+    // A test can have the same cases for both runners: rtest's come first
+    let specs: Vec<CasesSpec> = specs
+        .into_iter()
+        .filter(|(from_rtest, spec)| {
+            *from_rtest
+                || !spec
+                    .argnames
+                    .iter()
+                    .any(|name| rtest_argnames.contains(name))
+        })
+        .map(|(_, spec)| spec)
+        .collect();
+
     if specs.is_empty() {
         MethodCasesInfo::NotDecorated
     } else {
@@ -316,6 +324,17 @@ fn is_cases_or_parametrize_call(func: &Expr, resolver: Option<&ConstantResolver>
         || (module == "pytest" && decorator_name == "parametrize")
 }
 
+/// Whether a decorator that gives cases is rtest's, not pytest's
+fn is_rtest_cases(decorator: &Decorator, resolver: Option<&ConstantResolver>) -> bool {
+    let Expr::Call(call) = &decorator.expression else {
+        return false;
+    };
+    if let Some(path) = resolver.and_then(|resolver| resolver.imported_path(&call.func)) {
+        return path == ["rtest", "mark", "cases"];
+    }
+    matches!(call.func.as_ref(), Expr::Attribute(func) if func.attr.as_str() == "cases")
+}
+
 /// Extract argument names from the first decorator argument.
 fn extract_argnames(expr: &Expr) -> Result<Vec<String>, CannotExpandReason> {
     match expr {
-- 
2.43.0


From 0cabd4035eeb2f59352dd4e05aac628e47ee0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 48/67] fix: constructors of project classes count even where
 their package is named like a standard module

---
 python/rtest/worker/runner.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index ff2ffc3..1d237f4 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -6,6 +6,7 @@ import importlib.util
 import inspect
 import io
 import json
+import os
 import sys
 import time
 import traceback
@@ -86,10 +87,18 @@ def _is_test_function(name: str, obj: object, patterns: list[str]) -> bool:
     return _matches(name, patterns)
 
 
+def _is_from_standard_library(cls: type) -> bool:
+    """Check if a class is from the standard library, not from a project file named like a module of it."""
+    if cls.__module__.partition(".")[0] not in sys.stdlib_module_names:
+        return False
+    file = getattr(sys.modules.get(cls.__module__), "__file__", None)
+    return file is None or file.startswith(os.path.dirname(os.__file__) + os.sep)
+
+
 def _has_constructor(cls: type) -> bool:
     """Check if a class, or a class outside the standard library it inherits from, has a hand-written __init__."""
     for base in inspect.getmro(cls):
-        if "__init__" not in vars(base) or base.__module__.partition(".")[0] in sys.stdlib_module_names:
+        if "__init__" not in vars(base) or _is_from_standard_library(base):
             continue
         if not getattr(vars(base).get("__dataclass_params__"), "init", False):
             return True
-- 
2.43.0


From b92cdc4e7c2afb1e9d6c996c6aa1cfe7f3888988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 49/67] fix: collection looks at every class of a hierarchy
 once, not once per path to it

---
 src/python_discovery/semantic_analyzer.rs | 33 ++++++++++++-----------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index cf404f9..519a819 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -88,6 +88,8 @@ pub struct SemanticTestDiscovery {
     config: TestDiscoveryConfig,
     /// Cache of test classes by module path and class name
     class_cache: HashMap<(Vec<String>, String), TestClassInfo>,
+    /// Method resolution orders found so far
+    mro_cache: HashMap<(Vec<String>, String), Vec<(Vec<String>, String)>>,
     /// Imports of each loaded module, through which it offers classes of other modules
     import_cache: HashMap<Vec<String>, HashMap<String, ImportInfo>>,
     /// Warnings collected during discovery
@@ -103,6 +105,7 @@ impl SemanticTestDiscovery {
         Self {
             config,
             class_cache: HashMap::new(),
+            mro_cache: HashMap::new(),
             import_cache: HashMap::new(),
             warnings: Vec::new(),
             current_file_path: None,
@@ -577,7 +580,7 @@ impl SemanticTestDiscovery {
         self.base_class_has_init_impl(resolved, module_resolver, &mut visited)
     }
 
-    /// Internal implementation of base_class_has_init with cycle detection
+    /// Internal implementation of base_class_has_init; looks at every class once
     fn base_class_has_init_impl(
         &mut self,
         resolved: &ResolvedBaseClass,
@@ -592,39 +595,29 @@ impl SemanticTestDiscovery {
             return Ok(false);
         };
 
-        // Check for cycles
-        if visited.contains(&key) {
-            // Cycle detected - assume no init to break the cycle
+        // A class met before, over a cycle or another branch, has no init, or the search had ended
+        if !visited.insert(key.clone()) {
             return Ok(false);
         }
-        visited.insert(key.clone());
 
         // Get the base class info
         let base_info = match self.class_cache.get(&key) {
             Some(info) => info.clone(),
-            None => {
-                visited.remove(&key);
-                return Ok(false);
-            }
+            None => return Ok(false),
         };
 
         // If this class has __init__, return true
         if base_info.has_init {
-            visited.remove(&key);
             return Ok(true);
         }
 
         // Otherwise, recursively check all parent classes
         for parent in &base_info.base_classes {
             if self.base_class_has_init_impl(parent, module_resolver, visited)? {
-                visited.remove(&key);
                 return Ok(true);
             }
         }
 
-        // Remove from visited after processing to allow sibling branches in diamond
-        // inheritance patterns to revisit this class without false cycle detection
-        visited.remove(&key);
         Ok(false)
     }
 
@@ -684,6 +677,9 @@ impl SemanticTestDiscovery {
         module_resolver: &mut ModuleResolver,
         path: &mut Vec<(Vec<String>, String)>,
     ) -> CollectionResult<Vec<(Vec<String>, String)>> {
+        if let Some(mro) = self.mro_cache.get(key) {
+            return Ok(mro.clone());
+        }
         if path.contains(key) {
             // Cycle detected - this is an error condition
             return Err(CollectionError::ParseError(format!(
@@ -710,10 +706,14 @@ impl SemanticTestDiscovery {
             }
         }
         path.pop();
-        sequences.push(bases);
 
-        // C3 merge: take the first head that no other sequence still has further back
         let mut mro = vec![key.clone()];
+        if sequences.len() == 1 {
+            mro.append(&mut sequences[0]);
+        } else {
+            sequences.push(bases);
+        }
+        // C3 merge: take the first head that no other sequence still has further back
         loop {
             sequences.retain(|sequence| !sequence.is_empty());
             let Some(first) = sequences.first() else {
@@ -731,6 +731,7 @@ impl SemanticTestDiscovery {
             }
             mro.push(next);
         }
+        self.mro_cache.insert(key.clone(), mro.clone());
         Ok(mro)
     }
 
-- 
2.43.0


From 1a1e399572f5d63448eabd9817abc2f2058ca122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 50/67] fix: run_tests accepts a relative directory, and a file
 as its first argument

---
 src/pyo3.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 53b2942..cf1a54b 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -101,31 +101,23 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
     // Use the current Python executable
     let runner = PytestRunner::from_current_python(py);
 
-    // Determine root path: if the first argument is a path and not a pytest flag, use it
-    let (rootpath, filtered_args) = if let Some(first_arg) = pytest_args.first() {
-        if !first_arg.starts_with('-') && std::path::Path::new(first_arg).exists() {
-            // First argument is a path, use it as root and remove it from pytest args
-            let path = PathBuf::from(first_arg);
-            let remaining_args = pytest_args.into_iter().skip(1).collect();
-            (path, remaining_args)
-        } else {
-            // First argument is not a path, use current directory
-            match get_current_dir() {
-                Ok(dir) => (dir, pytest_args),
-                Err(e) => {
-                    eprintln!("{e}");
-                    return 1;
-                }
-            }
+    let current_dir = match get_current_dir() {
+        Ok(dir) => dir,
+        Err(e) => {
+            eprintln!("{e}");
+            return 1;
         }
-    } else {
-        match get_current_dir() {
-            Ok(dir) => (dir, pytest_args),
-            Err(e) => {
-                eprintln!("{e}");
-                return 1;
-            }
+    };
+
+    // Determine root path: if the first argument is a directory and not a pytest flag, use it
+    let (rootpath, filtered_args) = match pytest_args.split_first() {
+        Some((first_arg, remaining_args))
+            if !first_arg.starts_with('-') && std::path::Path::new(first_arg).is_dir() =>
+        {
+            // The processes that run the tests start in another directory than this one
+            (current_dir.join(first_arg), remaining_args.to_vec())
         }
+        _ => (current_dir, pytest_args),
     };
 
     let collection_result = collect_tests_rust(rootpath.clone(), &filtered_args);
-- 
2.43.0


From 001982b48d33ac561f6904460506acf4033ba655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 51/67] fix: run_tests passes flags to pytest instead of
 looking for files of their name

---
 src/pyo3.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index cf1a54b..9fef9a5 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -120,7 +120,12 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
         _ => (current_dir, pytest_args),
     };
 
-    let collection_result = collect_tests_rust(rootpath.clone(), &filtered_args);
+    // What looks like a flag is meant for pytest, not for collection
+    let (pytest_flags, paths): (Vec<String>, Vec<String>) = filtered_args
+        .into_iter()
+        .partition(|arg| arg.starts_with('-'));
+
+    let collection_result = collect_tests_rust(rootpath.clone(), &paths);
 
     let (test_nodes, errors) = match collection_result {
         Ok((nodes, errs)) => (nodes, errs),
@@ -143,7 +148,7 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
         &runner.program,
         &runner.initial_args,
         test_nodes,
-        filtered_args,
+        pytest_flags,
         Some(&rootpath),
         &runner.env_vars,
     )
-- 
2.43.0


From af7c61e404a3aebc2a8c422c4b0efe396daeeb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 52/67] fix: run_tests names the tests of a directory given
 with '..' relative to it

---
 src/pyo3.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 9fef9a5..6966444 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -114,8 +114,10 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
         Some((first_arg, remaining_args))
             if !first_arg.starts_with('-') && std::path::Path::new(first_arg).is_dir() =>
         {
-            // The processes that run the tests start in another directory than this one
-            (current_dir.join(first_arg), remaining_args.to_vec())
+            // The processes that run the tests start in another directory than this one. The current
+            // directory has no links or `..` in it either, as collection expects.
+            let dir = current_dir.join(first_arg);
+            (dir.canonicalize().unwrap_or(dir), remaining_args.to_vec())
         }
         _ => (current_dir, pytest_args),
     };
-- 
2.43.0


From bee764cd7aa641b0c04806b45d4ac7d038a5ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 53/67] fix: pytest's parametrize with a list of one name
 passes the values, not the sequences they are in

---
 python/rtest/mark.py          |  7 ++++++-
 src/python_discovery/cases.rs | 18 ++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index a3f8515..0304acf 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -298,6 +298,11 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             if not rtest_argnames.isdisjoint(parsed_argnames):
                 continue
 
+            argvalues = tuple(argvalues_raw)  # type: ignore[arg-type]
+            if len(parsed_argnames) == 1 and not isinstance(argnames_raw, str):
+                # To pytest, every entry for a sequence of names is a sequence of values
+                argvalues = tuple(v[0] if isinstance(v, (list, tuple)) and len(v) == 1 else v for v in argvalues)
+
             # Handle ids
             ids_tuple: tuple[str | None, ...] | None = None
             if ids_raw is not None and isinstance(ids_raw, (list, tuple)):
@@ -306,7 +311,7 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             specs.append(
                 ParametrizeSpec(
                     argnames=parsed_argnames,
-                    argvalues=tuple(argvalues_raw),  # type: ignore[arg-type]
+                    argvalues=argvalues,
                     ids=ids_tuple,
                 )
             )
diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index c5d0f54..1579bdf 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -257,8 +257,14 @@ fn parse_single_decorator(
         Err(reason) => return DecoratorParseResult::CannotExpand(reason),
     };
 
+    // To pytest, every entry for a sequence of names is a sequence of values; rtest's cases of
+    // one argument are always the values themselves
+    let bare_values = argnames.len() == 1
+        && (matches!(call.arguments.args[0], Expr::StringLiteral(_))
+            || is_rtest_cases(decorator, resolver));
+
     let (argvalues, value_ids) =
-        match extract_argvalues(&call.arguments.args[1], resolver, &argnames) {
+        match extract_argvalues(&call.arguments.args[1], resolver, &argnames, bare_values) {
             Ok(result) => result,
             Err(reason) => return DecoratorParseResult::CannotExpand(reason),
         };
@@ -414,12 +420,15 @@ fn fill_opaque_placeholders(id: &str, argnames: &[String], tuple_idx: usize) ->
 
 /// Extract the value of one case and its ID.
 ///
+/// Of bare values, each is a case itself; otherwise it is a sequence with a value per argument.
+///
 /// As in pytest, a case of several arguments has an ID part per argument, and a value
 /// that is not a scalar (a sequence, or opaque) gets the positional ID of its argument.
 fn extract_case(
     expr: &Expr,
     resolver: Option<&ConstantResolver>,
     argnames: &[String],
+    bare_values: bool,
     idx: usize,
 ) -> Result<(LiteralValue, String), CannotExpandReason> {
     let part_id = |value: &LiteralValue, id: String, argname: &str| match value {
@@ -428,8 +437,8 @@ fn extract_case(
     };
 
     let (value, id) = extract_literal(expr, resolver)?;
-    if let [argname] = argnames {
-        let id = part_id(&value, id, argname);
+    if bare_values {
+        let id = part_id(&value, id, argnames.first().map_or("arg", |s| s.as_str()));
         return Ok((value, id));
     }
     let parts: Vec<(LiteralValue, String)> = match (expr, &value) {
@@ -464,13 +473,14 @@ fn extract_argvalues(
     expr: &Expr,
     resolver: Option<&ConstantResolver>,
     argnames: &[String],
+    bare_values: bool,
 ) -> Result<(Vec<LiteralValue>, Vec<String>), CannotExpandReason> {
     match expr {
         Expr::List(ExprList { elts, .. }) | Expr::Tuple(ExprTuple { elts, .. }) => {
             let mut values = Vec::with_capacity(elts.len());
             let mut ids = Vec::with_capacity(elts.len());
             for (idx, elt) in elts.iter().enumerate() {
-                let (value, id) = extract_case(elt, resolver, argnames, idx)?;
+                let (value, id) = extract_case(elt, resolver, argnames, bare_values, idx)?;
                 values.push(value);
                 ids.push(id);
             }
-- 
2.43.0


From 3f77eb446b4bbfde4de4ed9e58ee65f92668b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 54/67] fix: modules of the project come before those
 PYTHONPATH names, as they do when tests run

---
 src/python_discovery/module_resolver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python_discovery/module_resolver.rs b/src/python_discovery/module_resolver.rs
index ab8b2a8..a358a40 100644
--- a/src/python_discovery/module_resolver.rs
+++ b/src/python_discovery/module_resolver.rs
@@ -29,12 +29,12 @@ impl ModuleResolver {
     pub fn new(project_root: &Path) -> CollectionResult<Self> {
         let mut search_paths = Vec::new();
 
-        // Add PYTHONPATH from environment first (takes precedence)
-        search_paths.extend(get_pythonpath_from_env());
-
-        // Then add the project root
+        // Tests are run by `python -m`, which puts the project root before what PYTHONPATH names
         search_paths.push(project_root.to_path_buf());
 
+        // Then add PYTHONPATH from environment
+        search_paths.extend(get_pythonpath_from_env());
+
         Ok(Self {
             search_paths,
             cache: HashMap::new(),
-- 
2.43.0


From d15b4eb71d658c5b9cbc9b37b325474e6759d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 55/67] fix: a package is preferred to a module of the same
 name, as Python does

---
 src/python_discovery/module_resolver.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python_discovery/module_resolver.rs b/src/python_discovery/module_resolver.rs
index a358a40..6005e77 100644
--- a/src/python_discovery/module_resolver.rs
+++ b/src/python_discovery/module_resolver.rs
@@ -128,17 +128,17 @@ impl ModuleResolver {
 
         let module_name = &module_path[module_path.len() - 1];
 
-        // Try module_name.py (regular module)
-        let mut py_file = base_dir.clone();
-        py_file.push(format!("{}.py", module_name));
-        paths.push(py_file);
-
-        // Try module_name/__init__.py (package)
-        let mut package_init = base_dir;
+        // Try module_name/__init__.py (package), which Python prefers to a module
+        let mut package_init = base_dir.clone();
         package_init.push(module_name);
         package_init.push("__init__.py");
         paths.push(package_init);
 
+        // Try module_name.py (regular module)
+        let mut py_file = base_dir;
+        py_file.push(format!("{}.py", module_name));
+        paths.push(py_file);
+
         paths
     }
 
-- 
2.43.0


From 9af274b9a9e403ee378d1c91e2fbf65bb6a27693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 56/67] fix: base classes that cannot be analysed keep their
 place in the method resolution order

---
 src/python_discovery/semantic_analyzer.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 519a819..29a6b43 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -668,7 +668,7 @@ impl SemanticTestDiscovery {
         })
     }
 
-    /// Method resolution order of a class, without the classes that cannot be analyzed.
+    /// Method resolution order of a class, as far as it can be analyzed.
     ///
     /// `path` holds the classes that are being resolved, for cycle detection.
     fn linearize(
@@ -696,14 +696,15 @@ impl SemanticTestDiscovery {
         let mut bases = Vec::new();
         let mut sequences = Vec::new();
         for base in &base_classes {
-            // Skip inheritance analysis for known stdlib modules that we can't analyze
-            if self.is_stdlib_module_to_skip(&base.module_path, module_resolver) {
-                continue;
-            }
-            if let Some(base_key) = self.find_class(base, module_resolver)? {
-                sequences.push(self.linearize(&base_key, module_resolver, path)?);
-                bases.push(base_key);
-            }
+            let base_key = match self.find_class(base, module_resolver)? {
+                Some(base_key) => base_key,
+                None if base.is_local => continue,
+                // Imported from where it can't be analyzed, such as the standard library: it offers no
+                // tests, but comes after all classes that inherit from it
+                None => (base.module_path.clone(), base.class_name.clone()),
+            };
+            sequences.push(self.linearize(&base_key, module_resolver, path)?);
+            bases.push(base_key);
         }
         path.pop();
 
-- 
2.43.0


From 6c5bdc15ee670ae996e4a9174a6ec69b694bd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 57/67] fix: a native run no longer waits for processes that
 tests have left running

---
 src/native_runner.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 19e9a77..e42a7d1 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -229,25 +229,30 @@ fn run_worker(
         cmd.arg(file);
     }
 
+    // A file and not a pipe, which processes that tests leave running would keep open
+    let stderr_file = output_file.with_extension("stderr");
+    let stderr = File::create(&stderr_file)
+        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
+
     cmd.current_dir(root)
-        .stdout(Stdio::piped())
-        .stderr(Stdio::piped());
+        .stdin(Stdio::null())
+        .stdout(Stdio::null())
+        .stderr(stderr);
 
-    let output = cmd
-        .output()
+    let status = cmd
+        .status()
         .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
 
     // Check worker exit code - non-zero indicates test failures or errors
-    if !output.status.success() {
-        let exit_code = output.status.code().unwrap_or(-1);
+    if !status.success() {
+        let exit_code = status.code().unwrap_or(-1);
         // Exit code 1 is expected when tests fail, only report unexpected codes
         if exit_code != 1 {
             // Print stderr only for unexpected failures
-            if !output.stderr.is_empty() {
-                let stderr = String::from_utf8_lossy(&output.stderr);
-                if !stderr.trim().is_empty() {
-                    eprintln!("Worker {} stderr:\n{}", worker_id, stderr);
-                }
+            let stderr = std::fs::read(&stderr_file).unwrap_or_default();
+            let stderr = String::from_utf8_lossy(&stderr);
+            if !stderr.trim().is_empty() {
+                eprintln!("Worker {} stderr:\n{}", worker_id, stderr);
             }
             return Err(format!(
                 "Worker {} crashed with exit code {} (expected 0 or 1)",
@@ -256,7 +261,7 @@ fn run_worker(
         }
     }
 
-    Ok(output.status.success())
+    Ok(status.success())
 }
 
 pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) -> i32 {
-- 
2.43.0


From 531da6b459caa37f848e64c0c099165e37e30892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 58/67] fix: do not allocate a batch for every requested worker

Any worker count is accepted, but a batch was allocated for each worker
before the empty ones were dropped: -n 9999999999999 aborted the run.
---
 src/scheduler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 84ea834..4b78eba 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -97,6 +97,7 @@ fn validate_and_handle_edge_cases(
 }
 
 fn distribute_groups_to_workers<T>(groups: Vec<Vec<T>>, num_workers: usize) -> Vec<Vec<T>> {
+    let num_workers = num_workers.min(groups.len());
     let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();
 
     for (i, group) in groups.into_iter().enumerate() {
@@ -128,6 +129,7 @@ impl Scheduler for LoadScheduler {
             return result;
         }
 
+        let num_workers = num_workers.min(tests.len());
         let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];
 
         for (i, test) in tests.into_iter().enumerate() {
@@ -178,6 +180,7 @@ impl Scheduler for WorkStealScheduler {
             return result;
         }
 
+        let num_workers = num_workers.min(tests.len());
         let mut workers: Vec<Vec<String>> = (0..num_workers).map(|_| Vec::new()).collect();
 
         // Round-robin distribution - this gives better work-stealing characteristics
-- 
2.43.0


From dad7974a8057eba0272f3a43afe50c6408e63e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 59/67] fix: an exception that cannot be formatted no longer
 ends the native worker

---
 python/rtest/worker/runner.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 1d237f4..e290651 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -241,6 +241,16 @@ def _call_test(test: Callable[..., object], kwargs: dict[str, object]) -> None:
         raise TypeError(f"the body of {test.__name__} did not run: async and generator tests are not supported")
 
 
+def _format_traceback(error: BaseException) -> str:
+    """The traceback of an exception, or its stack alone: exceptions can hold what formatting them fails on."""
+    try:
+        return "".join(traceback.format_exception(error))
+    except Exception:
+        return "".join(
+            ["Traceback (most recent call last):\n", *traceback.format_tb(error.__traceback__), type(error).__name__]
+        )
+
+
 def _run_single_test(test_case: TestCase) -> TestResult:
     """Execute a single test case and capture results."""
     if test_case.skip:
@@ -281,13 +291,13 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                 _call_test(test_case.func, test_case.kwargs)
     except AssertionError as e:
         outcome = "failed"
-        error_info = {"traceback": traceback.format_exc()}
+        error_info = {"traceback": _format_traceback(e)}
         error_type = type(e).__name__
     except KeyboardInterrupt:
         raise
     except BaseException as e:  # SystemExit, pytest outcomes, ... must not end the other tests
         outcome = "error"
-        error_info = {"traceback": traceback.format_exc()}
+        error_info = {"traceback": _format_traceback(e)}
         error_type = type(e).__name__
 
     duration_ms = (time.perf_counter() - start_time) * 1000
@@ -370,7 +380,7 @@ def run_tests(
                     nodeid=f"{rel_path}::IMPORT_ERROR",
                     outcome="error",
                     duration_ms=0.0,
-                    error={"traceback": traceback.format_exc()},
+                    error={"traceback": _format_traceback(e)},
                     error_type=type(e).__name__,
                 )
             )
-- 
2.43.0


From c53896b3e5a84f25d7447202dbe039e06525a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 60/67] fix: the native worker finds tests in a module's
 namespace, whatever its __dir__ says

---
 python/rtest/worker/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index e290651..1523b60 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -172,7 +172,7 @@ def _discover_tests_in_module(
 
     test_cases: list[TestCase] = []
 
-    for name, obj in inspect.getmembers(module):
+    for name, obj in sorted(vars(module).items()):
         if _is_test_function(name, obj, python_functions):
             func_obj: FunctionType = obj  # type: ignore[assignment]
             func_skip, func_skip_reason = _is_skipped(func_obj)
-- 
2.43.0


From 1b3dce4442348f7518ceb02ddf96574f2b54154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 61/67] fix: inherited tests were lost where another module's
 import of the base class's module led to it

---
 src/python_discovery/semantic_analyzer.rs | 42 ++++++++++++++++++-----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 29a6b43..cf00b59 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -639,14 +639,7 @@ impl SemanticTestDiscovery {
             if self.class_cache.contains_key(&key) {
                 return Ok(Some(key));
             }
-            let Some(import) = self
-                .import_cache
-                .get(&key.0)
-                .and_then(|imports| imports.get(&key.1))
-            else {
-                break;
-            };
-            let Some(imported) = Self::class_at(import.absolute_path(&key.0)?) else {
+            let Some(imported) = self.follow_import(&key, module_resolver)? else {
                 break;
             };
             if !visited.insert(key) {
@@ -658,6 +651,39 @@ impl SemanticTestDiscovery {
         Ok(None)
     }
 
+    /// Where a module imported a class from that it does not define, or the module itself, which
+    /// another one may offer under a name of its own
+    fn follow_import(
+        &mut self,
+        (module_path, class_name): &(Vec<String>, String),
+        module_resolver: &mut ModuleResolver,
+    ) -> CollectionResult<Option<ResolvedBaseClass>> {
+        let mut importer = module_path.as_slice();
+        let mut name = class_name;
+        let mut rest = Vec::new();
+        loop {
+            if let Some(import) = self
+                .import_cache
+                .get(importer)
+                .and_then(|imports| imports.get(name))
+            {
+                let mut path = import.absolute_path(importer)?;
+                path.extend(rest);
+                return Ok(Self::class_at(path));
+            }
+            // Only a module that does not exist can be one imported elsewhere
+            let Some((last, parents)) = importer.split_last() else {
+                return Ok(None);
+            };
+            if module_resolver.can_resolve(importer) {
+                return Ok(None);
+            }
+            rest.insert(0, name.clone());
+            (importer, name) = (parents, last);
+            self.ensure_module_loaded(importer, module_resolver)?;
+        }
+    }
+
     /// The class with an absolute path
     fn class_at(mut path: Vec<String>) -> Option<ResolvedBaseClass> {
         let class_name = path.pop()?;
-- 
2.43.0


From 6a04a2fabc91884a8fdbaabfcadfcc47406e81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 62/67] fix: cases given by keyword (argnames=, argvalues=)
 were not expanded by collection

---
 src/python_discovery/cases.rs | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 1579bdf..b4e5c99 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -246,13 +246,23 @@ fn parse_single_decorator(
         return DecoratorParseResult::NotCasesDecorator;
     }
 
-    if call.arguments.args.len() < 2 {
+    // Both may be given by keyword, too
+    let keywords = &call.arguments.keywords;
+    let mut positional = call.arguments.args.iter();
+    let (Some(argnames_expr), Some(argvalues_expr)) = (
+        positional
+            .next()
+            .or_else(|| find_keyword(keywords, "argnames")),
+        positional
+            .next()
+            .or_else(|| find_keyword(keywords, "argvalues")),
+    ) else {
         return DecoratorParseResult::CannotExpand(CannotExpandReason::UnsupportedExpression(
             "missing required arguments".to_string(),
         ));
-    }
+    };
 
-    let argnames = match extract_argnames(&call.arguments.args[0]) {
+    let argnames = match extract_argnames(argnames_expr) {
         Ok(names) => names,
         Err(reason) => return DecoratorParseResult::CannotExpand(reason),
     };
@@ -260,16 +270,15 @@ fn parse_single_decorator(
     // To pytest, every entry for a sequence of names is a sequence of values; rtest's cases of
     // one argument are always the values themselves
     let bare_values = argnames.len() == 1
-        && (matches!(call.arguments.args[0], Expr::StringLiteral(_))
-            || is_rtest_cases(decorator, resolver));
+        && (matches!(argnames_expr, Expr::StringLiteral(_)) || is_rtest_cases(decorator, resolver));
 
     let (argvalues, value_ids) =
-        match extract_argvalues(&call.arguments.args[1], resolver, &argnames, bare_values) {
+        match extract_argvalues(argvalues_expr, resolver, &argnames, bare_values) {
             Ok(result) => result,
             Err(reason) => return DecoratorParseResult::CannotExpand(reason),
         };
 
-    let ids = match extract_ids_kwarg(&call.arguments.keywords, resolver) {
+    let ids = match extract_ids_kwarg(keywords, resolver) {
         // Cases without a custom ID keep their value-based one
         Ok(ids) => ids.map(|ids| {
             let mut ids = ids.into_iter();
@@ -624,6 +633,14 @@ fn get_call_name(func: &Expr) -> String {
     }
 }
 
+/// The value of the keyword argument with this name.
+fn find_keyword<'a>(keywords: &'a [Keyword], name: &str) -> Option<&'a Expr> {
+    keywords
+        .iter()
+        .find(|kw| kw.arg.as_ref().is_some_and(|arg| arg.as_str() == name))
+        .map(|kw| &kw.value)
+}
+
 /// Extract the `ids` keyword argument if present, one entry per custom ID.
 ///
 /// A `None` entry asks for the value-based ID.
@@ -631,13 +648,10 @@ fn extract_ids_kwarg(
     keywords: &[Keyword],
     resolver: Option<&ConstantResolver>,
 ) -> Result<Option<Vec<Option<String>>>, CannotExpandReason> {
-    let Some(kw) = keywords
-        .iter()
-        .find(|kw| kw.arg.as_ref().is_some_and(|arg| arg.as_str() == "ids"))
-    else {
+    let Some(ids) = find_keyword(keywords, "ids") else {
         return Ok(None);
     };
-    match extract_literal(&kw.value, resolver)?.0 {
+    match extract_literal(ids, resolver)?.0 {
         LiteralValue::None => Ok(None),
         LiteralValue::Sequence(seq) => seq
             .iter()
-- 
2.43.0


From 849d382ef6b7eb89ff16a2f4fd8a2fba2cac4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 63/67] fix: a constant that is later assigned a computed
 value, or added to, was still taken for its first value

---
 src/python_discovery/constant_resolver.rs | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index c59cb15..e18a952 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -27,20 +27,16 @@ impl ConstantScope {
         for stmt in stmts {
             match stmt {
                 Stmt::Assign(assign) => {
-                    if let [Expr::Name(name)] = assign.targets.as_slice() {
-                        if let Some(value) = try_extract_literal(&assign.value) {
-                            scope.constants.insert(name.id.to_string(), value);
-                        }
+                    for target in &assign.targets {
+                        scope.assign(target, try_extract_literal(&assign.value));
                     }
                 }
                 Stmt::AnnAssign(ann) => {
-                    if let (Expr::Name(name), Some(value_expr)) = (ann.target.as_ref(), &ann.value)
-                    {
-                        if let Some(value) = try_extract_literal(value_expr) {
-                            scope.constants.insert(name.id.to_string(), value);
-                        }
+                    if let Some(value_expr) = &ann.value {
+                        scope.assign(&ann.target, try_extract_literal(value_expr));
                     }
                 }
+                Stmt::AugAssign(aug) => scope.assign(&aug.target, None),
                 Stmt::ClassDef(class_def) => {
                     let child = Self::from_statements(&class_def.body);
                     scope.children.insert(class_def.name.to_string(), child);
@@ -52,6 +48,16 @@ impl ConstantScope {
         scope
     }
 
+    /// Record what a name is assigned: a constant, or a value that makes it none any more.
+    fn assign(&mut self, target: &Expr, value: Option<LiteralValue>) {
+        if let Expr::Name(name) = target {
+            match value {
+                Some(value) => self.constants.insert(name.id.to_string(), value),
+                None => self.constants.remove(name.id.as_str()),
+            };
+        }
+    }
+
     /// Resolve a path like `["Outer", "Inner", "X"]` to a value.
     pub fn resolve_path(&self, path: &[&str]) -> Option<LiteralValue> {
         match path {
-- 
2.43.0


From eb93423b2ed68cfd8e6a3ba8ed07f7cf922855b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:48 +0000
Subject: [PATCH 64/67] fix: decorators that were given a name were ignored by
 collection

---
 src/python_discovery/cases.rs             | 14 ++++++-
 src/python_discovery/constant_resolver.rs | 45 ++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index b4e5c99..7b9f36f 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -238,7 +238,7 @@ fn parse_single_decorator(
     decorator: &Decorator,
     resolver: Option<&ConstantResolver>,
 ) -> DecoratorParseResult {
-    let Expr::Call(call) = &decorator.expression else {
+    let Expr::Call(call) = decorator_expression(decorator, resolver) else {
         return DecoratorParseResult::NotCasesDecorator;
     };
 
@@ -339,9 +339,19 @@ fn is_cases_or_parametrize_call(func: &Expr, resolver: Option<&ConstantResolver>
         || (module == "pytest" && decorator_name == "parametrize")
 }
 
+/// The expression of a decorator, or the call it is a name of
+fn decorator_expression<'a>(
+    decorator: &'a Decorator,
+    resolver: Option<&'a ConstantResolver>,
+) -> &'a Expr {
+    resolver
+        .and_then(|resolver| resolver.named_call(&decorator.expression))
+        .unwrap_or(&decorator.expression)
+}
+
 /// Whether a decorator that gives cases is rtest's, not pytest's
 fn is_rtest_cases(decorator: &Decorator, resolver: Option<&ConstantResolver>) -> bool {
-    let Expr::Call(call) = &decorator.expression else {
+    let Expr::Call(call) = decorator_expression(decorator, resolver) else {
         return false;
     };
     if let Some(path) = resolver.and_then(|resolver| resolver.imported_path(&call.func)) {
diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index e18a952..ab0ee79 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -74,6 +74,8 @@ pub struct ConstantResolver {
     root: ConstantScope,
     /// What each imported name stands for, e.g., `["pytest", "mark"]` for `mark`.
     imports: HashMap<String, Vec<String>>,
+    /// Calls that were given a name, such as a decorator that several tests share.
+    calls: HashMap<String, Expr>,
 }
 
 impl ConstantResolver {
@@ -82,6 +84,15 @@ impl ConstantResolver {
         Self {
             root: ConstantScope::from_statements(&module.body),
             imports: imported_names(&module.body),
+            calls: named_calls(&module.body),
+        }
+    }
+
+    /// The call that a name stands for.
+    pub fn named_call(&self, expr: &Expr) -> Option<&Expr> {
+        match expr {
+            Expr::Name(name) => self.calls.get(name.id.as_str()),
+            _ => None,
         }
     }
 
@@ -112,7 +123,27 @@ impl ConstantResolver {
     }
 }
 
-/// Collect the names that a list of statements binds by absolute imports.
+/// Collect the names that a list of statements binds to the result of a call.
+fn named_calls(stmts: &[Stmt]) -> HashMap<String, Expr> {
+    let mut calls = HashMap::new();
+
+    for stmt in stmts {
+        if let Stmt::Assign(assign) = stmt {
+            for target in &assign.targets {
+                if let Expr::Name(name) = target {
+                    match assign.value.as_ref() {
+                        call @ Expr::Call(_) => calls.insert(name.id.to_string(), call.clone()),
+                        _ => calls.remove(name.id.as_str()),
+                    };
+                }
+            }
+        }
+    }
+
+    calls
+}
+
+/// Collect the names that a list of statements binds by absolute imports, or to something imported.
 fn imported_names(stmts: &[Stmt]) -> HashMap<String, Vec<String>> {
     let mut names = HashMap::new();
 
@@ -142,6 +173,18 @@ fn imported_names(stmts: &[Stmt]) -> HashMap<String, Vec<String>> {
                     }
                 }
             }
+            Stmt::Assign(assign) => {
+                // `parametrize = pytest.mark.parametrize`
+                if let ([Expr::Name(name)], Some(path)) =
+                    (assign.targets.as_slice(), expr_to_path(&assign.value))
+                {
+                    if let Some(imported) = names.get(&path[0]) {
+                        let mut full: Vec<String> = imported.clone();
+                        full.extend_from_slice(&path[1..]);
+                        names.insert(name.id.to_string(), full);
+                    }
+                }
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 7ff9f7ac3da57dc9ed18b11b11f7fed49beb3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 65/67] fix: cases given as pytest.param were listed under ids
 they do not have

---
 src/python_discovery/cases.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 7b9f36f..b883593 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -339,6 +339,13 @@ fn is_cases_or_parametrize_call(func: &Expr, resolver: Option<&ConstantResolver>
         || (module == "pytest" && decorator_name == "parametrize")
 }
 
+/// Whether a called function is `pytest.param`, under whatever name it was imported
+fn is_pytest_param(func: &Expr, resolver: Option<&ConstantResolver>) -> bool {
+    resolver
+        .and_then(|resolver| resolver.imported_path(func))
+        .is_some_and(|path| path == ["pytest", "param"])
+}
+
 /// The expression of a decorator, or the call it is a name of
 fn decorator_expression<'a>(
     decorator: &'a Decorator,
@@ -590,6 +597,10 @@ fn extract_literal(
             // Unresolved name/attribute - treat as opaque (can count but not evaluate)
             Ok((LiteralValue::Opaque, String::new()))
         }
+        // Brings its own ID and marks
+        Expr::Call(call) if is_pytest_param(&call.func, resolver) => Err(
+            CannotExpandReason::UnsupportedExpression("pytest.param".to_string()),
+        ),
         // Function calls (including dataclass/class instantiation) - opaque
         Expr::Call(_) => Ok((LiteralValue::Opaque, String::new())),
         // Dict and set literals - opaque (we can count them but not stringify nicely)
-- 
2.43.0


From 7c9a86f6b118801e06c1220021fdc8a28bafd359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 66/67] fix: cases whose value is a variable from elsewhere
 were listed under ids they do not have

---
 src/python_discovery/cases.rs | 66 ++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index b883593..90a79ba 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -278,18 +278,26 @@ fn parse_single_decorator(
             Err(reason) => return DecoratorParseResult::CannotExpand(reason),
         };
 
-    let ids = match extract_ids_kwarg(keywords, resolver) {
-        // Cases without a custom ID keep their value-based one
-        Ok(ids) => ids.map(|ids| {
-            let mut ids = ids.into_iter();
-            value_ids
-                .iter()
-                .map(|value_id| ids.next().flatten().unwrap_or_else(|| value_id.clone()))
-                .collect()
-        }),
+    let custom_ids = match extract_ids_kwarg(keywords, resolver) {
+        Ok(ids) => ids,
         Err(reason) => return DecoratorParseResult::CannotExpand(reason),
     };
 
+    // Cases without a custom ID keep their value-based one, which must be known then
+    let value_ids: Vec<String> = match value_ids
+        .into_iter()
+        .enumerate()
+        .map(|(idx, value_id)| {
+            let custom_id = custom_ids.as_ref().and_then(|ids| ids.get(idx)?.clone());
+            custom_id.map_or(value_id, Ok)
+        })
+        .collect()
+    {
+        Ok(ids) => ids,
+        Err(reason) => return DecoratorParseResult::CannotExpand(reason),
+    };
+    let ids = custom_ids.map(|_| value_ids.clone());
+
     DecoratorParseResult::CasesSpec(CasesSpec {
         argnames,
         argvalues,
@@ -444,6 +452,9 @@ fn fill_opaque_placeholders(id: &str, argnames: &[String], tuple_idx: usize) ->
     filled.join("-")
 }
 
+/// The ID made of a value, or why it is not known.
+type ValueId = Result<String, CannotExpandReason>;
+
 /// Extract the value of one case and its ID.
 ///
 /// Of bare values, each is a case itself; otherwise it is a sequence with a value per argument.
@@ -456,38 +467,45 @@ fn extract_case(
     argnames: &[String],
     bare_values: bool,
     idx: usize,
-) -> Result<(LiteralValue, String), CannotExpandReason> {
-    let part_id = |value: &LiteralValue, id: String, argname: &str| match value {
-        LiteralValue::Opaque | LiteralValue::Sequence(_) => format!("{argname}{idx}"),
-        _ => id,
+) -> Result<(LiteralValue, ValueId), CannotExpandReason> {
+    let part_id = |expr: &Expr, value: &LiteralValue, id: String, pos: usize| match value {
+        // The value of a variable decides: that of a string or a class, say, is not positional
+        LiteralValue::Opaque if matches!(expr, Expr::Name(_) | Expr::Attribute(_)) => {
+            Err(CannotExpandReason::VariableReference(get_call_name(expr)))
+        }
+        LiteralValue::Opaque | LiteralValue::Sequence(_) => {
+            let argname = argnames.get(pos).map_or("arg", |s| s.as_str());
+            Ok(format!("{argname}{idx}"))
+        }
+        _ => Ok(id),
     };
 
     let (value, id) = extract_literal(expr, resolver)?;
     if bare_values {
-        let id = part_id(&value, id, argnames.first().map_or("arg", |s| s.as_str()));
+        let id = part_id(expr, &value, id, 0);
         return Ok((value, id));
     }
-    let parts: Vec<(LiteralValue, String)> = match (expr, &value) {
+    let parts: Vec<(&Expr, LiteralValue, String)> = match (expr, &value) {
         (Expr::Tuple(ExprTuple { elts, .. }) | Expr::List(ExprList { elts, .. }), _) => elts
             .iter()
-            .map(|elt| extract_literal(elt, resolver))
+            .map(|elt| extract_literal(elt, resolver).map(|(v, id)| (elt, v, id)))
             .collect::<Result<_, _>>()?,
         (_, LiteralValue::Sequence(values)) => values
             .iter()
-            .map(|v| (v.clone(), literal_to_id_string(v)))
+            .map(|v| (expr, v.clone(), literal_to_id_string(v)))
             .collect(),
         // One opaque value for all arguments
         _ => {
-            let id = part_id(&value, id, argnames.first().map_or("arg", |s| s.as_str()));
+            let id = part_id(expr, &value, id, 0);
             return Ok((value, id));
         }
     };
-    let ids: Vec<String> = parts
+    let ids: Result<Vec<String>, _> = parts
         .into_iter()
         .enumerate()
-        .map(|(pos, (v, id))| part_id(&v, id, argnames.get(pos).map_or("arg", |s| s.as_str())))
+        .map(|(pos, (expr, v, id))| part_id(expr, &v, id, pos))
         .collect();
-    Ok((value, ids.join("-")))
+    Ok((value, ids.map(|ids| ids.join("-"))))
 }
 
 /// Extract argument values from the second decorator argument.
@@ -500,7 +518,7 @@ fn extract_argvalues(
     resolver: Option<&ConstantResolver>,
     argnames: &[String],
     bare_values: bool,
-) -> Result<(Vec<LiteralValue>, Vec<String>), CannotExpandReason> {
+) -> Result<(Vec<LiteralValue>, Vec<ValueId>), CannotExpandReason> {
     match expr {
         Expr::List(ExprList { elts, .. }) | Expr::Tuple(ExprTuple { elts, .. }) => {
             let mut values = Vec::with_capacity(elts.len());
@@ -517,9 +535,9 @@ fn extract_argvalues(
             if let Some(resolver) = resolver {
                 if let Some((LiteralValue::Sequence(seq), path)) = resolver.resolve(expr) {
                     let source_name = path.join(".");
-                    let ids: Vec<String> = seq
+                    let ids: Vec<ValueId> = seq
                         .iter()
-                        .map(|v| format!("{}[{}]", source_name, literal_to_id_string(v)))
+                        .map(|v| Ok(format!("{}[{}]", source_name, literal_to_id_string(v))))
                         .collect();
                     return Ok((seq, ids));
                 }
-- 
2.43.0


From 134fbed4441a437ad5f1d9381a5034d9c9fa82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 67/67] fix: classes and modules with __test__ = False were
 listed and run

---
 python/rtest/worker/runner.py             |  6 +++++-
 src/python_discovery/constant_resolver.rs |  8 ++++++++
 src/python_discovery/semantic_analyzer.rs | 25 +++++++++++++++++++++--
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 1523b60..394ce60 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -107,7 +107,7 @@ def _has_constructor(cls: type) -> bool:
 
 def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     """Check if an object is a test class based on patterns; like collection, leaves out classes with a constructor."""
-    if not inspect.isclass(obj) or _has_constructor(obj):
+    if not inspect.isclass(obj) or getattr(obj, "__test__", True) is False or _has_constructor(obj):
         return False
     return _matches(name, patterns)
 
@@ -172,6 +172,10 @@ def _discover_tests_in_module(
 
     test_cases: list[TestCase] = []
 
+    # As in pytest, __test__ = False leaves a module out, like a class
+    if getattr(module, "__test__", True) is False:
+        return test_cases
+
     for name, obj in sorted(vars(module).items()):
         if _is_test_function(name, obj, python_functions):
             func_obj: FunctionType = obj  # type: ignore[assignment]
diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index ab0ee79..714399b 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -116,6 +116,14 @@ impl ConstantResolver {
         Some((value, path))
     }
 
+    /// Value of `__test__` in the module (an empty path) or a class: whether it has tests, if it says so.
+    pub fn test_attribute(&self, path: &[&str]) -> Option<bool> {
+        match self.root.resolve_path(&[path, &["__test__"]].concat()) {
+            Some(LiteralValue::Bool(value)) => Some(value),
+            _ => None,
+        }
+    }
+
     /// Get the root scope for testing.
     #[cfg(test)]
     pub fn root(&self) -> &ConstantScope {
diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index cf00b59..f387b0e 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -78,6 +78,8 @@ pub struct TestClassInfo {
     pub test_methods: Vec<TestMethodInfo>,
     /// Test names bound to a plain value, such as `test_x = None`, which hides an inherited method
     pub disabled_methods: HashSet<String>,
+    /// Value of `__test__` in the class itself
+    pub test_attribute: Option<bool>,
     pub base_classes: Vec<ResolvedBaseClass>,
     /// Class-level decorator specs
     pub class_specs: MethodCasesInfo,
@@ -153,6 +155,11 @@ impl SemanticTestDiscovery {
         let typing_modules = vec![];
         let semantic = SemanticModel::new(&typing_modules, path, semantic_module);
 
+        // As in pytest, `__test__ = False` leaves the module out
+        if resolver.test_attribute(&[]) == Some(false) {
+            return Ok((vec![], vec![]));
+        }
+
         // First pass: collect imports
         let imports = self.collect_imports(&ast_module, path, &semantic);
 
@@ -301,6 +308,7 @@ impl SemanticTestDiscovery {
                     has_init,
                     test_methods,
                     disabled_methods,
+                    test_attribute: resolver.test_attribute(&[class_name]),
                     base_classes,
                     class_specs,
                 };
@@ -451,6 +459,17 @@ impl SemanticTestDiscovery {
             return Ok(None);
         }
 
+        // As in pytest, `__test__ = False` leaves a class out, and those that inherit it
+        let key = (current_module_path.to_vec(), class_name.to_string());
+        let mro = self.linearize(&key, module_resolver, &mut Vec::new());
+        let test_attribute = mro.iter().flatten().find_map(|key| {
+            let info = self.class_cache.get(key)?;
+            info.test_attribute
+        });
+        if test_attribute == Some(false) {
+            return Ok(None);
+        }
+
         // Check if this class or any parent has __init__
         if self.should_skip_class(class_def, current_module_path, imports, module_resolver)? {
             // Add warning about skipped class
@@ -473,8 +492,7 @@ impl SemanticTestDiscovery {
 
         // As in Python, the first class in method resolution order that binds a name decides what it is.
         // Methods are listed from the most basic class to this one.
-        let key = (current_module_path.to_vec(), class_name.to_string());
-        let mro = self.linearize(&key, module_resolver, &mut Vec::new())?;
+        let mro = mro?;
         let infos: Vec<&TestClassInfo> = mro
             .iter()
             .filter_map(|key| self.class_cache.get(key))
@@ -787,6 +805,7 @@ impl SemanticTestDiscovery {
                             has_init: false,
                             test_methods: vec![],
                             disabled_methods: HashSet::new(),
+                            test_attribute: None,
                             base_classes: vec![],
                             class_specs: MethodCasesInfo::NotDecorated,
                         },
@@ -824,6 +843,7 @@ impl SemanticTestDiscovery {
                         has_init,
                         test_methods,
                         disabled_methods,
+                        test_attribute: external_resolver.test_attribute(&[class_name]),
                         base_classes,
                         class_specs,
                     };
@@ -844,6 +864,7 @@ impl SemanticTestDiscovery {
                 has_init: false,
                 test_methods: vec![],
                 disabled_methods: HashSet::new(),
+                test_attribute: None,
                 base_classes: vec![],
                 class_specs: MethodCasesInfo::NotDecorated,
             },
-- 
2.43.0

