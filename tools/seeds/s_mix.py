from s_py import RUN, M, S, W as PW
from s_thr import W, N, R, X, NATIVE, BODY
from s_res import SELF, PAR
SC = "src/scheduler.rs"
BAT = '''
fn batches(mode: &str, tests: &[&str], n: usize) -> Vec<Vec<String>> {
    create_scheduler(mode.parse::<DistributionMode>().unwrap()).distribute_tests(strs(tests), n)
}
'''
SEEDS = [
 dict(id="c12-same-module", property="C12", edits={PW: [(
  '''            module: ModuleType = _import_module_from_file(file_path.resolve(), root.resolve())
            module_name: str = module.__name__
            loaded_modules.append(module_name)
''',
  '''            module: ModuleType = _import_module_from_file(file_path.resolve(), root.resolve())
            module_name: str = module.__name__
            if module_name in loaded_modules:
                continue  # the same module under another path
            loaded_modules.append(module_name)
''')]},
  needs="two files whose module names coincide: a/b.py and a.b.py", breaks="the tests of the second file are neither run nor reported",
  py=RUN + '''
rc, recs = run("one", {"sub/test_x.py": "def test_a():\\n    pass\\n", "test_y.py": "def test_b():\\n    pass\\n"})
check(len(recs) == 2, "two files")
rc, recs = run("two", {"sub/test_x.py": "def test_a():\\n    pass\\n", "sub.test_x.py": "def test_b():\\n    pass\\n"})
check(sorted(r["nodeid"] for r in recs) == ["sub.test_x.py::test_b", "sub/test_x.py::test_a"], "two files with one module name")
'''),
 dict(id="c12-exit-info", property="C12", edits={PW: [(
  'has_failures = any(r.outcome in ("failed", "error") for r in results)', 'has_failures = any(r.error is not None for r in results)')]},
  needs="a test skipped with a reason", breaks="the worker exits 1 although no record is a failure or an error",
  py=RUN + '''
rc, recs = run("plain", "import rtest\\n@rtest.mark.skip()\\ndef test_a():\\n    pass\\n")
check(rc == 0 and recs[0]["outcome"] == "skipped", "skip without a reason")
rc, recs = run("bad", "def test_a():\\n    assert 0\\n")
check(rc == 1, "a failure")
rc, recs = run("reason", "import rtest\\n@rtest.mark.skip('later')\\ndef test_a():\\n    pass\\n")
check(rc == 0 and recs[0]["outcome"] == "skipped", "skip with a reason")
'''),
 dict(id="c13-cause", property="C13", edits={PW: [(
  '''        outcome = "error"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__

    duration_ms''',
  '''        outcome = "error"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e.__cause__ or e).__name__

    duration_ms''')]},
  needs="a test that raises an exception from another one", breaks="the record names the type of the cause, not of the exception that escaped",
  py=RUN + '''
rc, recs = run("plain", "def test_a():\\n    raise ValueError(1)\\n")
check(recs[0]["error_type"] == "ValueError", "a plain error")
rc, recs = run("chain", "def test_a():\\n    try:\\n        {}[1]\\n    except KeyError as e:\\n        raise RuntimeError('x') from e\\n")
check(recs[0]["error_type"] == "RuntimeError", "an error raised from another")
'''),
 dict(id="c14-teardown-base", property="C14", edits={PW: [(
  '''                finally:
                    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                        instance, "tearDown", None
                    )
                    if teardown is not None:
                        teardown()
''',
  '''                except (KeyboardInterrupt, SystemExit):
                    raise  # the process is about to end
                except BaseException:
                    self_teardown(instance)
                    raise
                else:
                    self_teardown(instance)
'''), ('''def _run_single_test(''', '''def self_teardown(instance: object) -> None:
    """Run the teardown of an instance, if it has one."""
    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
        instance, "tearDown", None
    )
    if teardown is not None:
        teardown()


def _run_single_test(''')]},
  needs="a test body that calls sys.exit", breaks="teardown does not run",
  py=RUN + '''
T = """
import sys
from pathlib import Path
class TestA:
    def teardown_method(self):
        Path(r"%s").write_text("x")
    def test_a(self):
        %s
"""
for i, body in enumerate(["pass", "assert 0", "1/0", "sys.exit(0)"]):
    f = Path("mark%d" % i).resolve()
    run("d%d" % i, T % (f, body))
    check(f.exists(), "teardown after " + body)
'''),
 dict(id="c15-merge", property="C15", edits={M: [(
  '''            merged_kwargs.update(case.kwargs)
''',
  '''            for key, value in case.kwargs.items():
                merged_kwargs.setdefault(key, value)
                if isinstance(value, dict) and isinstance(merged_kwargs[key], dict):
                    merged_kwargs[key] = {**merged_kwargs[key], **value, "_": len(tokens)}
''')]},
  needs="a case value that is a dictionary", breaks="the test gets a dictionary with an entry that was not declared",
  py=RUN + '''
rc, recs = run("plain", "import rtest\\n@rtest.mark.cases('x', [1, 2])\\ndef test_a(x):\\n    assert x in (1, 2)\\n")
check(rc == 0 and len(recs) == 2, "plain values")
rc, recs = run("dict", "import rtest\\n@rtest.mark.cases('x', [{}, {'a': 1}])\\ndef test_a(x):\\n    assert x in ({}, {'a': 1})\\n")
check(rc == 0 and len(recs) == 2, "dictionaries")
'''),
 dict(id="c15-names-empty", property="C15", edits={M: [(
  'parsed_argnames = tuple(name.strip() for name in argnames.split(","))\n        else:\n            parsed_argnames = tuple(argnames)',
  'parsed_argnames = tuple(name.strip() for name in argnames.split(",") if name.isidentifier())\n        else:\n            parsed_argnames = tuple(argnames)')]},
  needs="argument names written with a space after the comma", breaks="the second name is lost, and the test gets a whole row as its argument",
  py=RUN + '''
rc, recs = run("plain", "import rtest\\n@rtest.mark.cases('x,y', [(1, 2)])\\ndef test_a(x, y):\\n    assert y == 2\\n")
check(rc == 0, "two names")
rc, recs = run("space", "import rtest\\n@rtest.mark.cases('x, y', [(1, 2)])\\ndef test_a(x, y):\\n    assert y == 2\\n")
check(rc == 0, "two names with a space")
'''),
 dict(id="c16-suffix", property="C16", edits={M: [(
  'return f"[{case_id}]" if case_id else ""', 'return f"[{case_id.strip()}]" if case_id else ""')]},
  needs="two case ids that differ in outer spaces only", breaks="two cases get one node id",
  py=RUN + '''
rc, recs = run("plain", "import rtest\\n@rtest.mark.cases('x', ['a', 'b', 'a'])\\ndef test_a(x):\\n    pass\\n")
check(len({r["nodeid"] for r in recs}) == 3, "repeated values")
rc, recs = run("space", "import rtest\\n@rtest.mark.cases('x', ['a', ' a', 'a '])\\ndef test_a(x):\\n    pass\\n")
check(len({r["nodeid"] for r in recs}) == 3, "values that differ in spaces")
'''),
 dict(id="c17-skipif", property="C17", edits={PW: [(
  'if getattr(pytest_mark, "name", None) == "skip":', 'if str(getattr(pytest_mark, "name", None)).startswith("skip"):')]},
  needs="a test with pytest.mark.skipif whose condition is false", breaks="the test is reported as skipped without a skip marker",
  py=RUN + '''
T = """
class M:
    def __init__(self, name, *args, **kwargs):
        self.name, self.args, self.kwargs = name, args, kwargs
def test_a():
    assert 0
test_a.pytestmark = [M(%r, False, reason='r')]
"""
check(run("slow", T % "slow")[1][0]["outcome"] == "failed", "another marker")
check(run("skip", T % "skip")[1][0]["outcome"] == "skipped", "the skip marker")
check(run("skipif", T % "skipif")[1][0]["outcome"] == "failed", "a conditional marker")
'''),
 dict(id="c17-class-own", property="C17", edits={PW: [(
  'class_skip, class_skip_reason = _is_skipped(class_obj)', 'class_skip, class_skip_reason = _is_skipped(class_obj) if "__rtest_skip__" in vars(class_obj) or "pytestmark" in vars(class_obj) else (False, "")')]},
  needs="a test class that inherits its skip marker", breaks="its tests run",
  py=RUN + '''
T = "import rtest\\n@rtest.mark.skip('later')\\nclass TestA:\\n    def test_a(self):\\n        assert 0\\nclass TestB(TestA):\\n    pass\\n"
rc, recs = run("d", T)
check(len(recs) == 2 and all(r["outcome"] == "skipped" for r in recs), "an inherited marker")
'''),
 dict(id="c18-tuple", property="C18", edits={S: [(
  'if not issubclass(exc_type, self.expected_exception):\n            return False',
  'expected = self.expected_exception\n        if exc_type not in expected if isinstance(expected, tuple) else not issubclass(exc_type, expected):\n            return False')]},
  needs="a tuple of expected types and an exception of a subclass of one", breaks="the exception escapes the block",
  py='''
import sys
import rtest
for expected in (LookupError, (LookupError,), (KeyError, ValueError)):
    try:
        with rtest.raises(expected):
            raise KeyError(1)
    except KeyError:
        sys.exit("an expected exception escaped: %r" % (expected,))
'''),
 dict(id="c18-value-first", property="C18", edits={S: [(
  'value_str = str(exc_val)\n', 'value_str = str(exc_val.args[0]) if exc_val is not None and exc_val.args else ""\n')]},
  needs="an exception whose text is not its first argument, such as an OSError", breaks="a text that matches the pattern is refused",
  py='''
import sys
import rtest
for make, pattern in ((lambda: ValueError("abc"), "bc"), (lambda: ValueError("a", "bc"), "bc"), (lambda: FileNotFoundError(2, "No such file", "name.txt"), "name.txt")):
    try:
        with rtest.raises(Exception, match=pattern):
            raise make()
    except AssertionError:
        sys.exit("a matching text is refused: %r" % (make(),))
'''),
 dict(id="c01-single", property="C01", edits={SC: [(
  '''    if num_workers == 1 {
        return Some(vec![tests.to_vec()]);
    }
''',
  '''    if num_workers == 1 {
        // A later duplicate would only run the same test again
        let mut unique: Vec<String> = Vec::new();
        for test in tests {
            if unique.last() != Some(test) {
                unique.push(test.clone());
            }
        }
        return Some(vec![unique]);
    }
''')]},
  needs="one worker and a test that was collected twice in a row", breaks="the second occurrence is in no batch",
  rs=BAT + '''
fn main() {
    for mode in ["load", "loadscope", "loadfile", "worksteal", "no"] {
        for n in 1..4 {
            let got = batches(mode, &["a.py::t", "a.py::t", "b.py::u"], n);
            check(got.iter().map(|b| b.len()).sum::<usize>() == 3, &format!("{mode} with {n} workers keeps every occurrence"));
        }
    }
}
'''),
 dict(id="c01-heavy", property="C01", edits={SC: [(
  '''    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
    }
''',
  '''    let average = groups.iter().map(|g| g.len()).sum::<usize>() / num_workers;
    for (i, group) in groups.into_iter().enumerate() {
        // A group much larger than the average is a worker of its own
        if group.len() > 8 * average {
            workers.push(group);
        } else {
            workers[i % num_workers].extend(group);
        }
    }
''')]},
  needs="a group that holds over eight times the average share, with more than eight workers",
  breaks="there are more batches than workers",
  rs=BAT + '''
fn main() {
    for big in [3, 30, 300] {
        let mut tests: Vec<String> = (0..big).map(|i| format!("big.py::t{i}")).collect();
        tests.extend((0..40).map(|i| format!("s{i:02}.py::t")));
        let tests: Vec<&str> = tests.iter().map(|s| s.as_str()).collect();
        for mode in ["loadscope", "loadfile"] {
            let got = batches(mode, &tests, 12);
            check(got.len() <= 12, &format!("{mode} makes {} batches for 12 workers", got.len()));
            check(got.iter().map(|b| b.len()).sum::<usize>() == tests.len(), "every test is in a batch");
        }
    }
}
'''),
 dict(id="c04-none", property="C04", edits={R: [(
  '''        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    }
}''',
  '''        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            // 5: pytest found nothing to run in this batch
            if !matches!(result.exit_code, 0 | 5) {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    }
}''')]},
  needs="a pytest process that exits with 5", breaks="the run exits 0 although a process did not",
  rs=PAR + '''
fn main() {
    let program = script("fake", r#"case "$*" in *five*) exit 5;; *two*) exit 2;; esac"#);
    for (name, ok) in [("one", true), ("two", false), ("five", false)] {
        for sub in [false, true] {
            let code = parallel(&program, 2, sub, &["a.py::t".to_string(), format!("b.py::{name}")]);
            check((code == 0) == ok, &format!("{name}: exit {code}"));
        }
    }
}
'''),
 dict(id="c04-sum", property="C04", edits={R: [(
  '''            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    } else {''',
  '''            // All bits of all failures
            overall_exit_code ^= result.exit_code;
        }

        overall_exit_code
    } else {''')]},
  needs="an even number of failing workers with the same exit code, in a run over subprojects", breaks="the run exits 0",
  rs=PAR + '''
fn main() {
    let program = script("fake", r#"case "$*" in *bad*) exit 1;; esac"#);
    for sub in [false, true] {
        for tests in [&["a.py::bad", "b.py::t"][..], &["a.py::bad", "b.py::bad"], &["a.py::bad", "b.py::bad", "c.py::bad"]] {
            check(parallel(&program, 3, sub, &strs(tests)) != 0, &format!("{tests:?} exit 0"));
        }
    }
}
'''),
 dict(id="c09-torn", property="C09", edits={N: [(
  '''        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;

        results.push(result);
''',
  '''        match serde_json::from_str::<TestResult>(&line) {
            Ok(result) => results.push(result),
            // The worker was stopped in the middle of a record
            Err(e) if e.is_eof() => break,
            Err(e) => return Err(format!("Failed to parse JSON on line {}: {}", line_num + 1, e)),
        }
''')]},
  needs="a result file that ends in the middle of a record", breaks="the run passes although a result is lost",
  rs=NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''ok='{"nodeid":"a::t","outcome":"passed","duration_ms":1.0,"error":null}'
case "$1" in
  *test_0.py) echo "$ok" > "$out";;
  *test_1.py) echo "$ok" > "$out"; echo 'garbage' >> "$out";;
  *test_2.py) echo "$ok" > "$out"; printf '{"nodeid":"a::u","outco' >> "$out";;
esac"#);
    for (i, ok) in [(0, true), (1, false), (2, false)] {
        let code = native(python.clone(), &[format!("test_{i}.py")], 1);
        check((code == Some(0)) == ok, &format!("file {i}: {code:?}"));
    }
}
'''),
 dict(id="c09-absent", property="C09", edits={N: [(
  '''    let file =
        File::open(path).map_err(|e| format!("Failed to open results file {:?}: {}", path, e))?;
''',
  '''    let file = match File::open(path) {
        Ok(file) => file,
        // Nothing was found in the files of this worker
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(Vec::new()),
        Err(e) => return Err(format!("Failed to open results file {:?}: {}", path, e)),
    };
''')]},
  needs="a worker that exits with 0 and leaves no result file", breaks="the run passes although all results of the worker are lost",
  rs=NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''case "$1" in
  *test_0.py) : > "$out";;
esac"#);
    check(native(python.clone(), &names(1), 1) == Some(0), "an empty result file");
    check(native(python, &names(2), 2) == Some(1), "a missing result file");
}
'''),
]
