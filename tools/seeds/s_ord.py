from s_thr import NATIVE, BODY
from s_py import RUN
S, U, N, W, P = "src/scheduler.rs", "src/subproject.rs", "src/native_runner.rs", "src/worker.rs", "python/rtest/worker/runner.py"
SEEDS = [
 dict(id="c25-files-depth", property="C25", edits={N: [(
  "    test_files.sort();\n", "    // Files near the root first\n    test_files.sort_by_key(|f| f.components().count());\n")]},
  needs="a directory whose entries the file system lists in another order than by name", breaks="the order of the files, and so their workers, depends on the order of directory entries",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap().join("tree");
    let mut want = Vec::new();
    for d in ["b", "a", "c"] {
        std::fs::create_dir_all(root.join(d)).unwrap();
        for i in [7, 3, 9, 1, 5, 8, 2, 6, 4, 0] {
            let f = root.join(d).join(format!("test_{i}{d}.py"));
            std::fs::write(&f, "").unwrap();
            want.push(f);
        }
    }
    want.sort();
    let got = collect_test_files(&root, &[], &strs(&["test_*.py"]));
    check(got == want, "the files are listed in the order of their paths");
}
'''),
 dict(id="c25-subprojects", property="C25", edits={U: [(
  "use std::collections::BTreeMap;", "use std::collections::HashMap;"), (
  ") -> BTreeMap<PathBuf, Vec<String>> {\n    let mut groups: BTreeMap<PathBuf, Vec<String>> = BTreeMap::new();",
  ") -> HashMap<PathBuf, Vec<String>> {\n    let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();")]},
  needs="several subprojects in one run", breaks="the subprojects, and so the worker numbers, come in another order on every run",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap().canonicalize().unwrap();
    let mut tests = Vec::new();
    for i in 0..6 {
        let d = root.join(format!("p{i}"));
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("pyproject.toml"), "").unwrap();
        std::fs::write(d.join("test_a.py"), "").unwrap();
        tests.push(format!("p{i}/test_a.py::test_x"));
    }
    let order = || -> Vec<PathBuf> { subproject::group_tests_by_subproject(&root, &tests).into_iter().map(|(k, _)| k).collect() };
    let first = order();
    check(first.len() == 6, "there are six subprojects");
    for _ in 0..20 {
        check(order() == first, "the subprojects come in the same order every time");
    }
}
'''),
 dict(id="c25-completion", property="C25", edits={N: [(
  '''    let mut worker_errors = Vec::new();
    for (i, handle) in handles.into_iter().enumerate() {
        match handle.join() {''',
  '''    // Take the workers as they finish
    let mut finished = Vec::new();
    let mut running: Vec<_> = handles.into_iter().enumerate().collect();
    while !running.is_empty() {
        match running.iter().position(|(_, h)| h.is_finished()) {
            Some(k) => finished.push(running.remove(k)),
            None => thread::sleep(std::time::Duration::from_millis(5)),
        }
    }

    let mut worker_errors = Vec::new();
    for (i, handle) in finished {
        match handle.join() {''')]},
  needs="two workers that fail, the first one later than the second", breaks="the order of the reported problems depends on which worker ends first",
  rs=NATIVE + '''
fn main() {
    if std::env::args().nth(1).as_deref() == Some("run") {
        let python = script("fake", r#"''' + BODY + ''': > "$out"
case "$1" in *test_0.py) sleep 1;; esac
exit 7"#);
        native(python, &names(3), 3);
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("run").output().unwrap();
    let text = String::from_utf8_lossy(&out.stderr).to_string();
    let at: Vec<Option<usize>> = (0..3).map(|i| text.find(&format!("Worker {i}"))).collect();
    check(at.iter().all(|x| x.is_some()), "every crash is reported");
    check(at[0] < at[1] && at[1] < at[2], "the crashes are reported by worker number");
}
'''),
 dict(id="c25-py-methods", property="C25", edits={P: [(
  '''            for base_class in inspect.getmro(class_obj):
                for method_name in base_class.__dict__:
                    if method_name in seen_methods:
                        continue
''',
  '''            own = list(class_obj.__dict__)
            inherited = {name_ for base in inspect.getmro(class_obj)[1:] for name_ in base.__dict__}
            for names in (own, inherited.difference(own)):
                for method_name in names:
                    if method_name in seen_methods:
                        continue
'''), (
  "    all_test_cases.sort(key=lambda tc: tc.nodeid)\n", "    # By file: within a file, tests run in the order they are defined\n    all_test_cases.sort(key=lambda tc: tc.nodeid.partition(\"::\")[0])\n")]},
  needs="a test class that inherits several tests", breaks="inherited tests run in an order that depends on the hash seed",
  py=RUN + '''
import os, subprocess
Path("p").mkdir()
Path("p/test_a.py").write_text("""
class Base:
    def test_one(self): pass
    def test_two(self): pass
    def test_three(self): pass
    def test_four(self): pass
    def test_five(self): pass
class TestA(Base):
    def test_own(self): pass
""")
orders = set()
for seed in range(8):
    out = Path("out%d.jsonl" % seed).resolve()
    f = Path("p/test_a.py").resolve()
    subprocess.run([sys.executable, "-m", "rtest.worker", "--root", str(f.parent), "--out", str(out), "--", str(f)],
                   env=dict(os.environ, PYTHONHASHSEED=str(seed)), check=True, timeout=60)
    orders.add(tuple(json.loads(l)["nodeid"] for l in out.read_text().splitlines()))
check(len(orders) == 1 and len(next(iter(orders))) == 6, orders)
'''),
]
