From 19e803d6093d1d5a40c69ae43e551455f82782f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 01/24] fix: loadscope must not take a '::' inside a case id
 for a class separator

---
 src/scheduler.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3307f68..8d3f99c 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -206,12 +206,14 @@ impl Scheduler for NoScheduler {
 fn extract_scope(test_path: &str) -> String {
     // Extract module/class scope from test path
     // Format: path/to/file.py::TestClass::test_method or path/to/file.py::test_function
-    let parts: Vec<&str> = test_path.split("::").collect();
-    match parts.len() {
-        0 => test_path.to_string(), // Shouldn't happen, but handle gracefully
-        1 => parts[0].to_string(),  // Just file path
-        2 => parts[0].to_string(),  // File::function
-        _ => format!("{}::{}", parts[0], parts[1]), // File::Class::method
+    let Some((file, rest)) = test_path.split_once("::") else {
+        return test_path.to_string(); // Just file path
+    };
+    // A "::" inside a case id (file::function[a::b]) does not separate a class
+    let name = rest.split('[').next().unwrap_or(rest);
+    match name.split_once("::") {
+        Some((class, _)) => format!("{}::{}", file, class), // File::Class::method
+        None => file.to_string(),                           // File::function
     }
 }
 
-- 
2.43.0


From a58e4c9efcc343cb6b4f8053dec6a5248f795d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 02/24] fix: a missing or unreadable worker results file must
 fail the native run

---
 src/native_runner.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 4d0f615..bc9c6aa 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -318,20 +318,19 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
         }
     }
 
-    for error in &worker_errors {
-        eprintln!("{}", error);
-    }
-
+    // A missing or unreadable results file means lost results: it must fail the run
     let mut all_results = Vec::new();
     for output_file in &output_files {
-        if output_file.exists() {
-            match parse_results_file(output_file) {
-                Ok(results) => all_results.push(results),
-                Err(e) => eprintln!("Warning: {}", e),
-            }
+        match parse_results_file(output_file) {
+            Ok(results) => all_results.push(results),
+            Err(e) => worker_errors.push(e),
         }
     }
 
+    for error in &worker_errors {
+        eprintln!("{}", error);
+    }
+
     let aggregated = aggregate_results(all_results);
     print_summary(&aggregated);
 
-- 
2.43.0


From 5b4875c1560bae066cc50a753bd407efb42d07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 03/24] fix: tests of the root project must not be dropped when
 subprojects are used

A test whose file resolves outside of every subproject belongs to the root
group, but was removed from it when its unresolved path lay below a
subproject (for example a symlinked test file).
---
 src/subproject.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 5b76531..926bba8 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -1,6 +1,6 @@
 //! Subproject detection and test grouping functionality.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 
 /// Splits a test node ID into file path and test parts
@@ -17,15 +17,9 @@ pub fn group_tests_by_subproject(
     test_nodes: &[String],
 ) -> HashMap<PathBuf, Vec<String>> {
     let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();
-    let mut subproject_roots: HashSet<PathBuf> = HashSet::new();
 
     for test_node in test_nodes {
         let subproject_root = find_subproject_root(rootpath, test_node);
-        let is_subproject = subproject_root != *rootpath;
-
-        if is_subproject {
-            subproject_roots.insert(subproject_root.clone());
-        }
 
         groups
             .entry(subproject_root)
@@ -33,17 +27,6 @@ pub fn group_tests_by_subproject(
             .push(test_node.clone());
     }
 
-    if let Some(root_tests) = groups.get_mut(rootpath) {
-        root_tests.retain(|test_node| {
-            let (file_path, _) = split_test_node(test_node);
-            let test_path = rootpath.join(file_path);
-
-            !subproject_roots
-                .iter()
-                .any(|subproject| test_path.starts_with(subproject))
-        });
-    }
-
     groups
 }
 
-- 
2.43.0


From 69fa042421e202e65177bb4920354544b14c0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 04/24] fix: a run with -n 0 or --maxprocesses 0 must still
 execute its tests

---
 src/runner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runner.rs b/src/runner.rs
index 454a5fd..10cd4b8 100644
--- a/src/runner.rs
+++ b/src/runner.rs
@@ -62,6 +62,9 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         }
     };
 
+    // Without a worker no test would run, and the run would still succeed
+    let worker_count = config.worker_count.max(1);
+
     if config.use_subprojects {
         let test_groups = subproject::group_tests_by_subproject(config.rootpath, &test_nodes);
 
@@ -76,7 +79,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
             };
 
             let scheduler = create_scheduler(distribution_mode.clone());
-            let test_batches = scheduler.distribute_tests(adjusted_tests, config.worker_count);
+            let test_batches = scheduler.distribute_tests(adjusted_tests, worker_count);
 
             for batch in test_batches {
                 if !batch.is_empty() {
@@ -119,7 +122,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         overall_exit_code
     } else {
         let scheduler = create_scheduler(distribution_mode);
-        let test_batches = scheduler.distribute_tests(test_nodes, config.worker_count);
+        let test_batches = scheduler.distribute_tests(test_nodes, worker_count);
 
         if test_batches.is_empty() {
             log::info!("No test batches to execute.");
-- 
2.43.0


From bd82a87e493674b463b91063e573f8701c712c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 05/24] fix: a record with an unknown outcome must be listed,
 not only counted

---
 src/native_runner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index bc9c6aa..ff5abd5 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -125,7 +125,10 @@ fn aggregate_results(all_results: Vec<Vec<TestResult>>) -> AggregatedResults {
                     aggregated.errors.push(result);
                 }
                 "skipped" => aggregated.skipped += 1,
-                _ => aggregated.error += 1,
+                _ => {
+                    aggregated.error += 1;
+                    aggregated.errors.push(result);
+                }
             }
         }
     }
-- 
2.43.0


From d3796a1e45fcac0227101c429d56ac368362638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 06/24] fix: a test or module that raises SystemExit or
 pytest.skip() no longer ends the worker

---
 python/rtest/worker/runner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 5424810..b92ae9b 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -232,7 +232,9 @@ def _run_single_test(test_case: TestCase) -> TestResult:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
-    except Exception as e:
+    except KeyboardInterrupt:
+        raise
+    except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
         outcome = "error"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
@@ -295,7 +297,9 @@ def run_tests(
             loaded_modules.append(module_name)
             test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
             all_test_cases.extend(test_cases)
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
             try:
                 rel_path = str(file_path.relative_to(root))
             except ValueError:
-- 
2.43.0


From 05eff145909097395338a4517cb24139619a544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 07/24] fix: case ids of one test are distinct even when a
 suffixed or joined id is already taken (worker)

---
 python/rtest/mark.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 5cf79e3..38771be 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -149,16 +149,18 @@ mark = Mark()
 
 def _deduplicate_ids(ids: list[str]) -> list[str]:
     """Deduplicate IDs by adding suffixes _1, _2, etc. for duplicates."""
-    seen: dict[str, int] = {}
+    counts: dict[str, int] = {}
+    taken: set[str] = set()
     result: list[str] = []
 
     for id_ in ids:
-        if id_ not in seen:
-            seen[id_] = 0
-            result.append(id_)
-        else:
-            seen[id_] += 1
-            result.append(f"{id_}_{seen[id_]}")
+        unique = id_
+        # A suffixed ID may itself be one of the given IDs
+        while unique in taken:
+            counts[id_] = counts.get(id_, 0) + 1
+            unique = f"{id_}_{counts[id_]}"
+        taken.add(unique)
+        result.append(unique)
 
     return result
 
@@ -307,7 +309,9 @@ def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
             merged_kwargs.update(case.kwargs)
         result.append(ExpandedCase("-".join(tokens), merged_kwargs))
 
-    return result
+    # IDs that differ per decorator may coincide once joined
+    unique_ids = _deduplicate_ids([case.case_id for case in result])
+    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
 
 
 def get_case_nodeid_suffix(case_id: str) -> str:
-- 
2.43.0


From ceebef76efa4707fc4389b65772fc34f9d40f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 08/24] fix: case ids of one test are distinct even when a
 suffixed id is already taken (collection)

---
 src/python_discovery/cases.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index bf73bfc..711358f 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -651,17 +651,19 @@ fn expand_single_spec(spec: &CasesSpec) -> Vec<String> {
 
 /// Deduplicate IDs by adding `_1`, `_2` suffixes for duplicates.
 fn deduplicate_ids(ids: Vec<String>) -> Vec<String> {
-    let mut seen: std::collections::HashMap<String, usize> = std::collections::HashMap::new();
+    let mut counts: std::collections::HashMap<String, usize> = std::collections::HashMap::new();
+    let mut taken: std::collections::HashSet<String> = std::collections::HashSet::new();
     let mut result = Vec::with_capacity(ids.len());
 
     for id in ids {
-        let count = seen.entry(id.clone()).or_insert(0);
-        if *count == 0 {
-            result.push(id);
-        } else {
-            result.push(format!("{}_{}", id, count));
+        let mut unique = id.clone();
+        // A suffixed id may itself be one of the given ids
+        while !taken.insert(unique.clone()) {
+            let count = counts.entry(id.clone()).or_insert(0);
+            *count += 1;
+            unique = format!("{}_{}", id, count);
         }
-        *count += 1;
+        result.push(unique);
     }
 
     result
-- 
2.43.0


From 5173ee81ff4085907a41f67229d6718681d9f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 09/24] fix: decorating a subclass or a wrapper with cases no
 longer changes the marks of its base

---
 python/rtest/mark.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 38771be..345c431 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -108,10 +108,10 @@ class Mark:
         )
 
         def decorator(func: F) -> F:
-            cases_list: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", None) or []
-            if not getattr(func, "__rtest_cases__", None):
-                func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
+            # A list of its own: one found here may be inherited from another class or shared with a wrapped function
+            cases_list: list[ParametrizeSpec] = list(getattr(func, "__rtest_cases__", None) or [])
             cases_list.append(spec)
+            func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
             return func
 
         return decorator
-- 
2.43.0


From de5ab425c0ae7775686d0f2ff54a686d12defbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 10/24] fix: cases on a test class apply to its methods in
 native runs, as in collection

---
 python/rtest/mark.py          | 7 +++++--
 python/rtest/worker/runner.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 345c431..8206b16 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -229,7 +229,7 @@ def _extract_pytest_marker_args(mark_args: tuple[object, ...]) -> PytestMarkerAr
     return PytestMarkerArgs("", [])
 
 
-def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
+def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
     """Get parametrize specs from rtest or pytest markers."""
     # Check rtest markers first
     rtest_specs: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", [])
@@ -277,7 +277,7 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
     return specs
 
 
-def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
+def expand_parametrize(func: FunctionType, test_class: type | None = None) -> list[ExpandedCase]:
     """Expand test cases for a test function.
 
     If the function has no @rtest.mark.cases decorators, returns a single
@@ -287,6 +287,7 @@ def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
 
     Args:
         func: The test function (may have __rtest_cases__ attribute).
+        test_class: The class of a test method, whose own cases apply to each of its methods.
 
     Returns:
         List of ExpandedCase entries where:
@@ -294,6 +295,8 @@ def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
         - kwargs is the dict of arguments to pass to the function
     """
     specs = _get_parametrize_specs(func)
+    if test_class is not None:
+        specs = [*specs, *_get_parametrize_specs(test_class)]
 
     if not specs:
         return [ExpandedCase("", {})]
diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index b92ae9b..a062047 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -173,7 +173,7 @@ def _discover_tests_in_module(
                     skip = method_skip or class_skip
                     skip_reason = method_skip_reason if method_skip else class_skip_reason
 
-                    for case_id, kwargs in expand_parametrize(method_func):
+                    for case_id, kwargs in expand_parametrize(method_func, class_obj):
                         suffix = get_case_nodeid_suffix(case_id)
                         nodeid = f"{rel_path}::{name}::{method_name}{suffix}"
                         test_cases.append(
-- 
2.43.0


From 47683ee86ff9ed09e9b1b9d7f89adc87a776aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 11/24] fix: a single pytestmark on a class no longer turns its
 file into an import error

---
 python/rtest/mark.py          | 4 +++-
 python/rtest/worker/runner.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 8206b16..3161e00 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -238,7 +238,9 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
 
     # Check pytest markers (with deprecation warning)
     specs: list[ParametrizeSpec] = []
-    pytest_marks: list[object] = getattr(func, "pytestmark", [])
+    pytest_marks: object = getattr(func, "pytestmark", [])
+    if not isinstance(pytest_marks, (list, tuple)):
+        pytest_marks = [pytest_marks]  # a class may set a single mark
     for pytest_mark in pytest_marks:
         if getattr(pytest_mark, "name", None) == "parametrize":
             warnings.warn(
diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index a062047..079ba0a 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -91,7 +91,9 @@ def _is_skipped(obj: object) -> tuple[bool, str]:
         return True, skip_reason_attr
 
     # Check pytest marker (with deprecation warning)
-    pytest_marks: list[object] = getattr(obj, "pytestmark", [])
+    pytest_marks: object = getattr(obj, "pytestmark", [])
+    if not isinstance(pytest_marks, (list, tuple)):
+        pytest_marks = [pytest_marks]  # a class may set a single mark
     for pytest_mark in pytest_marks:
         if getattr(pytest_mark, "name", None) == "skip":
             func_name: str = str(getattr(obj, "__name__", str(obj)))
-- 
2.43.0


From 8c939ad06ea52c262d66d93db41ae46c021beae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:22 +0000
Subject: [PATCH 12/24] fix: a test method runs under the name it was collected
 by, not its function's __name__

---
 python/rtest/worker/runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 079ba0a..e5ecab4 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -39,6 +39,7 @@ class TestCase:
     skip: bool = False
     skip_reason: str = ""
     test_class: type | None = None
+    method_name: str = ""  # name of the method in its class, which need not be func.__name__
 
 
 def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
@@ -186,6 +187,7 @@ def _discover_tests_in_module(
                                 skip=skip,
                                 skip_reason=skip_reason,
                                 test_class=class_obj,
+                                method_name=method_name,
                             )
                         )
 
@@ -220,7 +222,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                 if setup is not None:
                     setup()
                 try:
-                    bound_method: Callable[..., object] = getattr(instance, test_case.func.__name__)
+                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
                     bound_method(**test_case.kwargs)
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
-- 
2.43.0


From daf3f636f39922ec85eb002631e48bac6c50bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 13/24] fix: parametrize values given by keyword or as another
 iterable than a list no longer lose the test

---
 python/rtest/mark.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 3161e00..6693547 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -216,17 +216,17 @@ def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
     return entries
 
 
-def _extract_pytest_marker_args(mark_args: tuple[object, ...]) -> PytestMarkerArgs:
-    """Extract argnames and argvalues from pytest marker args.
+def _extract_pytest_marker_args(
+    mark_args: tuple[object, ...], mark_kwargs: "MappingProxyType[str, object]"
+) -> PytestMarkerArgs:
+    """Extract argnames and argvalues from the positional and keyword arguments of a pytest marker.
 
     Returns:
         PytestMarkerArgs with defaults for missing values.
     """
-    if len(mark_args) >= 2:
-        return PytestMarkerArgs(mark_args[0], mark_args[1])
-    elif len(mark_args) == 1:
-        return PytestMarkerArgs(mark_args[0], [])
-    return PytestMarkerArgs("", [])
+    argnames = mark_args[0] if len(mark_args) >= 1 else mark_kwargs.get("argnames", "")
+    argvalues = mark_args[1] if len(mark_args) >= 2 else mark_kwargs.get("argvalues", [])
+    return PytestMarkerArgs(argnames, argvalues)
 
 
 def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
@@ -251,7 +251,7 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             # Convert pytest marker to ParametrizeSpec
             mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
             mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
-            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args)
+            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args, mark_kwargs)
             ids_raw: object = mark_kwargs.get("ids")
 
             if isinstance(argnames_raw, str):
@@ -260,9 +260,6 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
                 # Assume it's a sequence of strings - need type ignore for iteration on object
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
 
-            # Convert argvalues to tuple
-            argvalues_seq: Sequence[object] = argvalues_raw if isinstance(argvalues_raw, (list, tuple)) else []
-
             # Handle ids
             ids_tuple: tuple[str, ...] | None = None
             if ids_raw is not None and isinstance(ids_raw, (list, tuple)):
@@ -271,7 +268,7 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             specs.append(
                 ParametrizeSpec(
                     argnames=parsed_argnames,
-                    argvalues=tuple(argvalues_seq),
+                    argvalues=tuple(argvalues_raw),  # type: ignore[arg-type]
                     ids=ids_tuple,
                 )
             )
-- 
2.43.0


From 756bf976b73673c019ff8ff232cf7675967e3271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 14/24] fix: name patterns with a wildcard in the middle match
 in collection as they do in the worker

---
 src/python_discovery/pattern.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/python_discovery/pattern.rs b/src/python_discovery/pattern.rs
index e0e2785..1dc9b49 100644
--- a/src/python_discovery/pattern.rs
+++ b/src/python_discovery/pattern.rs
@@ -1,14 +1,10 @@
 //! Pattern matching utilities for test discovery.
 
-/// Check if a name matches a pattern (supports * wildcards)
+use crate::collection::glob_match;
+
+/// Check if a name matches a glob pattern, as the native worker does (wildcards may be anywhere)
 pub fn matches(pattern: &str, name: &str) -> bool {
-    if let Some(prefix) = pattern.strip_suffix('*') {
-        name.starts_with(prefix)
-    } else if let Some(suffix) = pattern.strip_prefix('*') {
-        name.ends_with(suffix)
-    } else {
-        pattern == name
-    }
+    glob_match(pattern, name)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 652e60547a5a2e6572f93db7f16c4b1e38931dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 15/24] fix: a lone surrogate in a test's output no longer
 makes the worker's results file unreadable to the runner

---
 python/rtest/worker/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index e5ecab4..0fb955f 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -332,10 +332,11 @@ def run_tests(
         sys.modules.pop(loaded_module_name, None)
 
     output_file.parent.mkdir(parents=True, exist_ok=True)
-    with output_file.open("w") as f:
+    # Lone surrogates in captured output have no JSON form that the runner can read
+    with output_file.open("w", encoding="utf-8", errors="replace") as f:
         for result in results:
             result_dict: dict[str, object] = asdict(result)
-            f.write(json.dumps(result_dict) + "\n")
+            f.write(json.dumps(result_dict, ensure_ascii=False) + "\n")
 
     has_failures = any(r.outcome in ("failed", "error") for r in results)
     return 1 if has_failures else 0
-- 
2.43.0


From d58519a29abd24d3972d0cb05d3c9676e377fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 16/24] fix: tests of a subproject reached through a symlink
 keep a path that exists there

---
 src/subproject.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 926bba8..1247dbe 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -69,8 +69,15 @@ pub fn make_test_paths_relative(
             let (file_path, test_part) = split_test_node(node);
 
             let absolute_path = old_base.join(file_path);
-            match absolute_path.strip_prefix(new_base) {
-                Ok(relative_path) => {
+            let relative_path = match absolute_path.strip_prefix(new_base) {
+                Ok(relative_path) => Some(relative_path.to_path_buf()),
+                // Subprojects are found by resolved path, which differs when a symlink leads to them
+                Err(_) => absolute_path.canonicalize().ok().and_then(|resolved| {
+                    resolved.strip_prefix(new_base).map(Path::to_path_buf).ok()
+                }),
+            };
+            match relative_path {
+                Some(relative_path) => {
                     let mut new_node = relative_path.to_string_lossy().into_owned();
                     if let Some(test) = test_part {
                         new_node.push_str("::");
@@ -78,7 +85,7 @@ pub fn make_test_paths_relative(
                     }
                     new_node
                 }
-                Err(_) => node.clone(),
+                None => node.clone(),
             }
         })
         .collect()
-- 
2.43.0


From ce889c67e80316c7004452b9d3109c30232d780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 17/24] fix: subprojects run in the same order every time

---
 src/subproject.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 1247dbe..c0b9721 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -1,6 +1,6 @@
 //! Subproject detection and test grouping functionality.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::path::{Path, PathBuf};
 
 /// Splits a test node ID into file path and test parts
@@ -15,8 +15,8 @@ fn split_test_node(node: &str) -> (&str, Option<&str>) {
 pub fn group_tests_by_subproject(
     rootpath: &Path,
     test_nodes: &[String],
-) -> HashMap<PathBuf, Vec<String>> {
-    let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();
+) -> BTreeMap<PathBuf, Vec<String>> {
+    let mut groups: BTreeMap<PathBuf, Vec<String>> = BTreeMap::new();
 
     for test_node in test_nodes {
         let subproject_root = find_subproject_root(rootpath, test_node);
-- 
2.43.0


From 4a418e7b267ad54fc6f4f09ed36bbdbc6e51f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 18/24] fix: collect the entries of a directory in a fixed
 order

---
 src/collection/nodes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 3d68207..d0d6daa 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -233,6 +233,9 @@ impl Collector for Directory {
             }
         }
 
+        // The order of directory entries depends on the file system
+        items.sort_by(|a, b| a.path().cmp(b.path()));
+
         Ok((items, vec![]))
     }
 
-- 
2.43.0


From f47bb85c13b7dc56c246c3f652c8644a6ae0a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 19/24] fix: native file scan searches a hidden directory that
 was asked for

---
 src/native_runner.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index ff5abd5..f3fa87c 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -371,10 +371,12 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
     WalkDir::new(dir)
         .into_iter()
         .filter_entry(|e| {
-            e.file_name()
-                .to_str()
-                .map(|n| !is_hidden_or_ignored(n))
-                .unwrap_or(false)
+            // The directory to search is given by the user, whatever its name
+            e.depth() == 0
+                || e.file_name()
+                    .to_str()
+                    .map(|n| !is_hidden_or_ignored(n))
+                    .unwrap_or(false)
         })
         .filter_map(|e| e.ok())
         .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
-- 
2.43.0


From 24694a0fcdb61efd287dd472c0ef0f20e8de28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 20/24] fix: native runner runs a file named more than once
 only once

---
 src/native_runner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index f3fa87c..9a96f7f 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -410,6 +410,8 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
     };
 
     test_files.sort();
+    // A file can be named twice, or be named and found below a named directory
+    test_files.dedup();
     test_files
 }
 
-- 
2.43.0


From c3b8d8efc4125d02cdaabf286b6b7bea66bac026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 21/24] fix: collection uses the patterns configured in
 pyproject.toml

---
 src/collection/nodes.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index d0d6daa..e6f016f 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -24,10 +24,22 @@ pub struct Session {
 
 impl Session {
     pub fn new(rootpath: PathBuf) -> Self {
+        let mut config = CollectionConfig::default();
+        let pytest_config = crate::config::read_pytest_config(&rootpath);
+        if !pytest_config.python_files.is_empty() {
+            config.python_files = pytest_config.python_files;
+        }
+        if !pytest_config.python_classes.is_empty() {
+            config.python_classes = pytest_config.python_classes;
+        }
+        if !pytest_config.python_functions.is_empty() {
+            config.python_functions = pytest_config.python_functions;
+        }
+
         Self {
             nodeid: String::new(),
             rootpath,
-            config: CollectionConfig::default(),
+            config,
             cache: HashMap::new(),
         }
     }
-- 
2.43.0


From 79a4923eaf7ea9a8d8550b650ce0d7bbf3b2b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 22/24] fix: native runner executes only the configured
 testpaths

---
 src/pyo3.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 4848a90..f5c354a 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -233,7 +233,16 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
             };
 
             // For execution, still use file-based collection (worker handles discovery)
-            let test_files = collect_test_files(&rootpath, &args.files, &python_files);
+            let scan_paths: Vec<String> = if args.files.is_empty() {
+                pytest_config
+                    .testpaths
+                    .iter()
+                    .map(|p| p.to_string_lossy().into_owned())
+                    .collect()
+            } else {
+                args.files.clone()
+            };
+            let test_files = collect_test_files(&rootpath, &scan_paths, &python_files);
 
             let config = NativeRunnerConfig {
                 python_executable,
-- 
2.43.0


From e22ed03f6433c837f15b15df12fe4006fe17d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 23/24] fix: settings given as one string of values are read

---
 src/config.rs | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 8abb1b3..ee2c3ad 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -17,6 +17,21 @@ pub struct PytestConfig {
     pub python_functions: Vec<String>,
 }
 
+/// The values of a setting: an array of strings, or one string of values separated by whitespace
+fn setting_values(value: &Value) -> Option<Vec<String>> {
+    match value {
+        Value::Array(values) => Some(
+            values
+                .iter()
+                .filter_map(|v| v.as_str())
+                .map(String::from)
+                .collect(),
+        ),
+        Value::String(values) => Some(values.split_whitespace().map(String::from).collect()),
+        _ => None,
+    }
+}
+
 /// Read pytest configuration from pyproject.toml
 pub fn read_pytest_config(root_path: &Path) -> PytestConfig {
     let pyproject_path = root_path.join("pyproject.toml");
@@ -51,25 +66,17 @@ pub fn read_pytest_config(root_path: &Path) -> PytestConfig {
 
     if let Some(testpaths) = ini_options
         .and_then(|i| i.get("testpaths"))
-        .and_then(|t| t.as_array())
+        .and_then(setting_values)
     {
-        config.testpaths = testpaths
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(PathBuf::from)
-            .collect();
+        config.testpaths = testpaths.into_iter().map(PathBuf::from).collect();
         debug!("Found testpaths in pyproject.toml: {:?}", config.testpaths);
     }
 
     if let Some(python_files) = ini_options
         .and_then(|i| i.get("python_files"))
-        .and_then(|t| t.as_array())
+        .and_then(setting_values)
     {
-        config.python_files = python_files
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(String::from)
-            .collect();
+        config.python_files = python_files;
         debug!(
             "Found python_files in pyproject.toml: {:?}",
             config.python_files
@@ -78,13 +85,9 @@ pub fn read_pytest_config(root_path: &Path) -> PytestConfig {
 
     if let Some(python_classes) = ini_options
         .and_then(|i| i.get("python_classes"))
-        .and_then(|t| t.as_array())
+        .and_then(setting_values)
     {
-        config.python_classes = python_classes
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(String::from)
-            .collect();
+        config.python_classes = python_classes;
         debug!(
             "Found python_classes in pyproject.toml: {:?}",
             config.python_classes
@@ -93,13 +96,9 @@ pub fn read_pytest_config(root_path: &Path) -> PytestConfig {
 
     if let Some(python_functions) = ini_options
         .and_then(|i| i.get("python_functions"))
-        .and_then(|t| t.as_array())
+        .and_then(setting_values)
     {
-        config.python_functions = python_functions
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(String::from)
-            .collect();
+        config.python_functions = python_functions;
         debug!(
             "Found python_functions in pyproject.toml: {:?}",
             config.python_functions
-- 
2.43.0


From 8f9194a99f007bd1c403ca2314e376b0bbc21008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 24/24] fix: huge worker counts no longer make the schedulers
 ask for room for every worker

---
 src/scheduler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 8d3f99c..17bc066 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -97,6 +97,8 @@ fn validate_and_handle_edge_cases(
 }
 
 fn distribute_groups_to_workers<T>(groups: Vec<Vec<T>>, num_workers: usize) -> Vec<Vec<T>> {
+    // Room for more workers than groups is never needed
+    let num_workers = num_workers.min(groups.len());
     let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();
 
     for (i, group) in groups.into_iter().enumerate() {
@@ -128,6 +130,8 @@ impl Scheduler for LoadScheduler {
             return result;
         }
 
+        // Room for more workers than tests is never needed
+        let num_workers = num_workers.min(tests.len());
         let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];
 
         for (i, test) in tests.into_iter().enumerate() {
@@ -178,6 +182,8 @@ impl Scheduler for WorkStealScheduler {
             return result;
         }
 
+        // Room for more workers than tests is never needed
+        let num_workers = num_workers.min(tests.len());
         let mut workers: Vec<Vec<String>> = (0..num_workers).map(|_| Vec::new()).collect();
 
         // Round-robin distribution - this gives better work-stealing characteristics
-- 
2.43.0

