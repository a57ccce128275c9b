M, S, W = "python/rtest/mark.py", "python/rtest/raises.py", "python/rtest/worker/runner.py"
RUN = '''
import json, sys
from pathlib import Path
from rtest.worker.runner import run_tests


def run(name, text, **kw):
    d = Path(name)
    d.mkdir()
    files = []
    for n, t in (text if isinstance(text, dict) else {"test_a.py": text}).items():
        f = d / n
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text(t)
        files.append(f.resolve())
    out = (d / "out.jsonl").resolve()
    rc = run_tests(d.resolve(), out, files, **kw)
    return rc, [json.loads(l) for l in out.read_text().splitlines()]


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)

'''
REAL = """
fn main() {
    let root = std::env::current_dir().unwrap();
    let repo = std::env::var("RTEST_REPO").unwrap();
    let python = script("python", &format!(r#"export PYTHONPATH={repo}/python PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python "$@""#));
%s
    let config = NativeRunnerConfig {
        python_executable: python.clone(), root_path: root.clone(), num_workers: 1,
        python_files: default_python_files(), python_classes: default_python_classes(), python_functions: default_python_functions(),
    };
    let code = execute_native(&config, vec![root.join("test_a.py")]);
    check(code == 0, &format!("exit {code}"));
}
"""
SEEDS = [
 dict(id="c12-skip-unreported", property="C12", edits={W: [(
  '''        for result in results:
            result_dict: dict[str, object] = asdict(result)
''', '''        for result in results:
            # Nothing was run and there is nothing to say
            if result.outcome == "skipped" and result.error is None and len(results) > 50:
                continue
            result_dict: dict[str, object] = asdict(result)
''')]}, needs="more than 50 tests, one skipped without a reason", breaks="that test is missing from the results",
  py=RUN + '''
text = "import rtest\\n\\n\\n" + "".join(f"def test_{i}():\\n    pass\\n\\n\\n" for i in range(60))
text += "@rtest.mark.skip()\\ndef test_skipped():\\n    pass\\n"
rc, res = run("p", text.replace("import rtest", "from rtest import mark as m").replace("@rtest.mark", "@m"))
check(len(res) == 61, f"{len(res)} of 61 tests are reported")
'''),
 dict(id="c13-assertion-subclass", property="C13", edits={W: [(
  '''        outcome = "failed"
        error_info''', '''        outcome = "failed" if type(e) is AssertionError else "error"
        error_info''')]}, needs="a test that raises a subclass of AssertionError", breaks="it is reported as an error instead of as failed",
  py=RUN + '''
rc, res = run("p", "class Mine(AssertionError):\\n    pass\\n\\n\\ndef test_x():\\n    raise Mine('no')\\n\\n\\ndef test_y():\\n    assert False\\n")
got = {r["nodeid"]: r["outcome"] for r in res}
check(got == {"test_a.py::test_x": "failed", "test_a.py::test_y": "failed"}, got)
'''),
 dict(id="c14-shared-instance", property="C14", edits={W: [(
  '''                instance: object = test_case.test_class()
''', '''                instance: object = _instances.get((test_case.test_class, test_case.func)) or test_case.test_class()
                if test_case.kwargs:
                    _instances[(test_case.test_class, test_case.func)] = instance
'''), ('''def _run_single_test(''', '''_instances: dict[tuple[type, FunctionType], object] = {}  # cases of one method share their fixtures


def _run_single_test(''')]}, needs="a method with several cases that keeps state on its instance", breaks="the cases of the method run on one instance",
  py=RUN + '''
text = """from rtest import mark


class TestA:
    def setup_method(self):
        pass

    @mark.cases("x", [1, 2, 3])
    def test_x(self, x):
        assert not hasattr(self, "seen")
        self.seen = x
"""
rc, res = run("p", text)
check(rc == 0 and [r["outcome"] for r in res] == ["passed"] * 3, [r["outcome"] for r in res])
'''),
 dict(id="c15-long-rows", property="C15", edits={M: [(
  '''            if len(value) != num_args:
''', '''            if len(value) < num_args or len(set(map(type, value))) > 1 and len(value) != num_args:
''')]}, needs="a row of values that is longer than the argument names", breaks="the row is silently truncated",
  py=RUN + '''
text = """from rtest import mark


@mark.cases("x,y", [(1, 2), (3, 4, 5)])
def test_x(x, y):
    pass
"""
rc, res = run("p", text)
check(rc == 1 and all(r["outcome"] != "passed" for r in res), [(r["nodeid"], r["outcome"]) for r in res])
'''),
 dict(id="c16-long-ids", property="C16", edits={M: [(
  '''    return f"[{case_id}]" if case_id else ""
''', '''    if len(case_id) > 120:
        case_id = case_id[:117] + "..."
    return f"[{case_id}]" if case_id else ""
''')]}, needs="two cases whose ids share their first 117 characters", breaks="two cases have the same node id",
  py=RUN + '''
text = """from rtest import mark


@mark.cases("x", ["a" * 200 + "1", "a" * 200 + "2"])
def test_x(x):
    pass
"""
rc, res = run("p", text)
check(len({r["nodeid"] for r in res}) == 2, "node ids are not distinct")
'''),
 dict(id="c17-first-mark", property="C17", edits={W: [(
  '''        if getattr(pytest_mark, "name", None) == "skip":
''', '''        if getattr(pytest_mark, "name", None) == "parametrize":
            break
        if getattr(pytest_mark, "name", None) == "skip":
''')]}, needs="a pytest skip marker above a parametrize marker", breaks="the test runs although it is marked to be skipped",
  py=RUN + '''
text = """import pytest


@pytest.mark.skip(reason="no")
@pytest.mark.parametrize("x", [1, 2])
def test_x(x):
    raise SystemError("ran")
"""
rc, res = run("p", text)
check([r["outcome"] for r in res] == ["skipped", "skipped"], [r["outcome"] for r in res])
'''),
 dict(id="c18-first-line", property="C18", edits={S: [(
  '''            value_str = str(exc_val)
''', '''            value_str = str(exc_val).partition("\\n")[0]
''')]}, needs="a pattern that matches in the second line of the text only", breaks="the block fails although the text matches",
  py='''
import sys
from rtest.raises import raises

try:
    with raises(ValueError, match="second"):
        raise ValueError("first\\nsecond")
except AssertionError as e:
    print("FAILED:", e)
    sys.exit(1)
'''),
 dict(id="c30-marks-members", property="C30", edits={M: [(
  '''            func_or_class.__rtest_skip__ = True  # type: ignore[union-attr]
''', '''            func_or_class.__rtest_skip__ = True  # type: ignore[union-attr]
            if isinstance(func_or_class, type):
                for member in vars(func_or_class).values():
                    if isinstance(member, FunctionType):
                        member.__rtest_skip__ = True  # type: ignore[attr-defined]
''')]}, needs="a skipped class that shares a function with another class", breaks="the function of the other class is marked as well",
  py='''
import sys
from rtest.mark import mark


def test_shared(self):
    pass


@mark.skip(reason="no")
class TestA:
    test_x = test_shared


class TestB:
    test_x = test_shared


if getattr(TestB.test_x, "__rtest_skip__", False):
    print("FAILED: decorating TestA marks the method of TestB")
    sys.exit(1)
'''),
 dict(id="c22-shared-seen", property="C22", edits={W: [(
  """            seen_methods: set[str] = set()
            for base_class in inspect.getmro(class_obj):
                for method_name in base_class.__dict__:
                    if method_name in seen_methods:
                        continue
""", """            for base_class in inspect.getmro(class_obj):
                for method_name in base_class.__dict__:
                    if (base_class, method_name) in seen_methods or method_name in vars(class_obj) and base_class is not class_obj:
                        continue
"""), ("""                    seen_methods.add(method_name)
""", """                    seen_methods.add((base_class, method_name))
"""), ("""    test_cases: list[TestCase] = []

    for name, obj""", """    test_cases: list[TestCase] = []
    seen_methods: set[tuple[type, str]] = set()

    for name, obj""")]}, needs="two test classes of one file that inherit a test method from the same base", breaks="only the first of them runs the inherited test",
  py=RUN + """
text = "class Base:\\n    def test_b(self):\\n        pass\\n\\n\\nclass TestA(Base):\\n    def test_a(self):\\n        pass\\n\\n\\nclass TestB(Base):\\n    def test_a(self):\\n        pass\\n"
rc, res = run("p", text)
got = sorted(r["nodeid"] for r in res)
check(got == ["test_a.py::TestA::test_a", "test_a.py::TestA::test_b", "test_a.py::TestB::test_a", "test_a.py::TestB::test_b"], got)
"""),
 dict(id="c28-two-levels", property="C28", edits={W: [(
  """    module_name = str(rel_path).replace("/", ".").replace("\\\\", ".")
    if module_name.endswith(".py"):
        module_name = module_name[:-3]
""", """    # The directory is enough to tell files of the same name apart
    module_name = ".".join(rel_path.with_suffix("").parts[-2:])
""")]}, needs="two test files with the same name in directories with the same name", breaks="they share one entry of sys.modules, so the first sees the module of the second",
  py=RUN + """
t = "import sys\\n\\nVALUE = %d\\n\\n\\ndef test_own():\\n    assert sys.modules[__name__].VALUE == %d\\n"
rc, res = run("p", {"a/unit/test_t.py": t % (1, 1), "b/unit/test_t.py": t % (2, 2), "a/test_t.py": t % (3, 3)})
got = {r["nodeid"]: r["outcome"] for r in res}
check(len(got) == 3 and set(got.values()) == {"passed"}, got)
"""),
 dict(id="c11-compact-records", property="C11", edits={W: [(
  """            result_dict: dict[str, object] = asdict(result)
""", """            result_dict: dict[str, object] = asdict(result)
            if result.outcome == "skipped" and result.error is None:
                # Nothing ran: neither output nor a duration
                result_dict = {k: result_dict[k] for k in ("nodeid", "outcome", "error")}
""")]}, needs="a test skipped without a reason", breaks="its record lacks a field the runner requires, so every result of the file is lost",
  rs=REAL % """
    std::fs::write(root.join("test_a.py"), "from rtest import mark as m\\n\\n\\n@m.skip()\\ndef test_s():\\n    pass\\n\\n\\ndef test_p():\\n    pass\\n").unwrap();
"""),
 dict(id="c11-raw-reason", property="C11", edits={W: [(
  """                    reason = str(mark_args[0])""", """                    reason = mark_args[0]""")]}, needs="a pytest skip mark whose positional reason is not a text", breaks="the reason is written as a number, which the runner cannot read, so every result of the file is lost",
  py=RUN + """
rc, res = run("p", "import pytest\\n\\n\\n@pytest.mark.skip(404)\\ndef test_s():\\n    pass\\n\\n\\ndef test_p():\\n    pass\\n")
check(len(res) == 2, res)
bad = [r for r in res if r["error"] is not None and not all(isinstance(x, str) for x in r["error"].values())]
check(not bad, bad)
"""),
]
