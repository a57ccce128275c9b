from s_py import RUN, REAL, M, S, W as PW
from s_thr import W, N, R, X
from s_res import SELF
CLI, SC, SP, U, CFG = "src/cli.rs", "src/scheduler.rs", "src/subproject.rs", "src/utils.rs", "src/config.rs"
MAIN = "python/rtest/worker/__main__.py"

SEEDS = [
 dict(id="c12-by-id", property="C12", edits={PW: [(
  '''    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)
''', '''    by_name: dict[str, TestCase] = {tc.nodeid.replace("/", "."): tc for tc in all_test_cases}
    for test_case in by_name.values():
        result = _run_single_test(test_case)
        results.append(result)
''')]},
  needs="two files whose paths differ only by a dot in place of a slash, with a test of the same name", breaks="one of the two tests is neither run nor reported",
  py=RUN + r'''
rc, res = run("p", {"pkg/test_a.py": "def test_x():\n    pass\n", "pkg.test_a.py": "def test_x():\n    pass\n"})
check(rc == 0 and len(res) == 2, [r["nodeid"] for r in res])
'''),
 dict(id="c13-teardown", property="C13", edits={PW: [(
  '''                    if teardown is not None:
                        teardown()
''', '''                    if teardown is not None:
                        with contextlib.suppress(AttributeError):
                            teardown()
''')]},
  needs="a teardown that raises AttributeError", breaks="the test is reported as passed",
  py=RUN + r'''
rc, res = run("p", "class TestA:\n    def teardown_method(self):\n        self.missing.close()\n\n    def test_x(self):\n        pass\n")
check(rc == 1 and res[0]["outcome"] == "error" and res[0]["error_type"] == "AttributeError", res)
'''),
 dict(id="c13-system-exit", property="C13", edits={PW: [(
  '''        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__

    duration_ms''', '''        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
        if isinstance(e, SystemExit) and not e.code:
            outcome = "passed"

    duration_ms''')]},
  needs="a test that calls sys.exit(0)", breaks="the rest of the test did not run and it is reported as passed",
  py=RUN + r'''
rc, res = run("p", "import sys\n\n\ndef test_x():\n    sys.exit(0)\n    assert False\n")
check(rc == 1 and res[0]["outcome"] == "error", res)
'''),
 dict(id="c14-setup-in-try", property="C14", edits={PW: [(
  '''                if setup is not None:
                    setup()
                try:
                    bound_method''', '''                try:
                    if setup is not None:
                        setup()
                    bound_method''')]},
  needs="a class whose setup raises and that has a teardown", breaks="teardown runs although setup did not complete, and its exception replaces that of setup",
  py=RUN + r'''
rc, res = run("p", """
class TestA:
    def setup_method(self):
        raise OSError("no connection")

    def teardown_method(self):
        print("teardown ran")

    def test_x(self):
        pass
""")
check(rc == 1 and res[0]["error_type"] == "OSError" and "teardown ran" not in res[0]["stdout"], res)
'''),
 dict(id="c14-shared-capture", property="C14", edits={PW: [(
  '''    stdout_capture = io.StringIO()
    stderr_capture = io.StringIO()

    outcome''', '''    stdout_capture = io.StringIO()
    stderr_capture = _STDERR
    stderr_capture.truncate(0)

    outcome'''), ('''def _run_single_test(''', '''_STDERR = io.StringIO()


def _run_single_test(''')]},
  needs="a test that writes to standard error after another one did", breaks="the record of a test starts with padding in place of what an earlier test wrote",
  py=RUN + r'''
rc, res = run("p", """
import sys


def test_a():
    sys.stderr.write("first")


def test_b():
    sys.stderr.write("second")
""")
check([r["stderr"] for r in res] == ["first", "second"], [r["stderr"] for r in res])
'''),
 dict(id="c28-early-pop", property="C28", edits={PW: [(
  '''            loaded_modules.append(module_name)
            test_cases''', '''            test_cases'''), (
  '''            all_test_cases.extend(test_cases)
''', '''            all_test_cases.extend(test_cases)
            if not any(tc.test_class for tc in test_cases):
                sys.modules.pop(module_name, None)
            loaded_modules.append(module_name)
''')]},
  needs="a file without test classes whose test needs its own module, through sys.modules, as dataclasses and typing.get_type_hints do", breaks="the module is gone when the test runs",
  py=RUN + r'''
rc, res = run("p", """
import sys

NAMES = ["a"]


def test_module_is_registered():
    assert sys.modules[__name__].NAMES is NAMES
""")
check(rc == 0 and res[0]["outcome"] == "passed", res)
'''),
 dict(id="c28-outside", property="C28", edits={PW: [(
  '''    try:
        rel_path = file_path.relative_to(root)
    except ValueError:
        rel_path = file_path

''', '''    try:
        rel_path = file_path.relative_to(root)
    except ValueError:
        rel_path = Path(file_path.name)

''')]},
  needs="two files of one name in different directories that are both outside the root", breaks="both are loaded under one module name, and the tests of the first see the module of the second",
  py=RUN + r'''
text = "import sys\n\nMARK = %r\n\n\ndef test_own():\n    assert sys.modules[__name__].MARK == MARK\n"
files = []
for n in ("one", "two"):
    d = Path("out") / n
    d.mkdir(parents=True)
    (d / "test_a.py").write_text(text % n)
    files.append((d / "test_a.py").resolve())
Path("root").mkdir()
rc = run_tests(Path("root").resolve(), Path("res.jsonl").resolve(), files)
check(rc == 0, Path("res.jsonl").read_text()[:400])
'''),
 dict(id="c11-null-duration", property="C11", edits={PW: [(
  '''            outcome="skipped",
            duration_ms=0.0,
            error={"reason": test_case.skip_reason} if test_case.skip_reason else None,
''', '''            outcome="skipped",
            duration_ms=0.0 if test_case.skip_reason else None,
            error={"reason": test_case.skip_reason} if test_case.skip_reason else None,
''')]},
  needs="a test that is skipped without a reason", breaks="the runner cannot read the worker's results",
  rs=REAL % '''    std::fs::write("test_a.py", "import rtest\\n\\n\\n@rtest.mark.skip()\\ndef test_x():\\n    pass\\n").unwrap();
    let init = std::fs::read_to_string(format!("{repo}/python/rtest/mark.py")).unwrap();
    std::fs::create_dir_all("stub/rtest").unwrap();
    let _ = init;'''),
 dict(id="c11-no-tests-code", property="C11", edits={PW: [(
  "    return 1 if has_failures else 0", "    if not results:\n        return 5\n    return 1 if has_failures else 0")]},
  needs="a worker whose files hold no test", breaks="the runner takes the worker to have failed",
  rs=REAL % '''    std::fs::write("test_a.py", "def helper():\\n    pass\\n").unwrap();'''),
 dict(id="c20-dist-case", property="C20", edits={CLI: [(
  "        match self.dist.parse::<crate::scheduler::DistributionMode>() {", "        match self.dist.to_lowercase().parse::<crate::scheduler::DistributionMode>() {")]},
  needs="a distribution mode in capitals", breaks="it is accepted before collection although the scheduler does not support it",
  rs=r'''
fn main() {
    for mode in ["load", "loadscope", "loadfile", "worksteal", "no", "LOAD", "LoadFile", "other"] {
        let args = cli::Args { env: vec![], numprocesses: None, maxprocesses: None, dist: mode.to_string(), ..<cli::Args as clap::Parser>::parse_from(["rtest"]) };
        let supported = mode.parse::<scheduler::DistributionMode>().is_ok();
        check(args.validate_dist().is_ok() == supported, &format!("{mode}: supported {supported}"));
    }
}
'''),
 dict(id="c07-negative", property="C07", edits={CLI: [(
  "                _ => match s.parse::<usize>() {\n                    Ok(n) => Ok(Some(NumProcesses::Count(n))),",
  "                _ => match s.parse::<isize>() {\n                    Ok(n) => Ok(Some(NumProcesses::Count(n.unsigned_abs()))),")]},
  needs="a negative number for -n", breaks="it is silently taken for its absolute value",
  rs=r'''
fn main() {
    let parse = |n: &str| {
        let args = <cli::Args as clap::Parser>::parse_from(["rtest", &format!("--numprocesses={n}")]);
        args.get_num_processes().is_ok()
    };
    check(parse("3") && parse("auto"), "a number is taken");
    check(!parse("-3"), "a negative number is rejected");
}
'''),
 dict(id="c25-summary", property="C25", edits={N: [(
  '''    let mut parts = Vec::new();
    if results.passed > 0 {
        parts.push(format!("{} passed", results.passed));
    }
    if results.failed > 0 {
        parts.push(format!("{} failed", results.failed));
    }
    if results.error > 0 {
        parts.push(format!("{} error", results.error));
    }
    if results.skipped > 0 {
        parts.push(format!("{} skipped", results.skipped));
    }
''', '''    let counts = std::collections::HashMap::from([
        ("passed", results.passed),
        ("failed", results.failed),
        ("error", results.error),
        ("skipped", results.skipped),
    ]);
    let parts: Vec<String> = counts
        .iter()
        .filter(|(_, count)| **count > 0)
        .map(|(name, count)| format!("{count} {name}"))
        .collect();
''')]},
  needs="a run with tests of several outcomes, twice", breaks="the counts of the summary are printed in another order on another run",
  rs=SELF + r'''
fn main() {
    if std::env::args().count() > 1 {
        let root = std::env::current_dir().unwrap();
        let python = script("python", r#"while [ $# -gt 0 ]; do [ "$1" = --out ] && out=$2; shift; done
for o in passed failed error skipped; do echo "{\"nodeid\":\"a.py::$o\",\"outcome\":\"$o\",\"duration_ms\":1.0,\"stdout\":\"\",\"stderr\":\"\"}"; done > "$out"
exit 1"#);
        let config = NativeRunnerConfig {
            python_executable: python, root_path: root.clone(), num_workers: 1,
            python_files: default_python_files(), python_classes: default_python_classes(), python_functions: default_python_functions(),
        };
        execute_native(&config, vec![root.join("a.py")]);
        return;
    }
    let first = this(&["run"]).0;
    check(first.contains("1 passed"), &first);
    for _ in 0..12 {
        let next = this(&["run"]).0;
        check(next == first, &format!("{first} / {next}"));
    }
}
'''),
]
