from s_py import RUN, M, S, W as PW
from s_thr import W, N, R, X, NATIVE, BODY
from s_res import SELF, PAR
from s_mix import SC, BAT
SP, CFG, U = "src/subproject.rs", "src/config.rs", "src/utils.rs"
SEEDS = [
 dict(id="c05-depth", property="C05", edits={SP: [(
  '        while current.starts_with(rootpath) && current != rootpath {\n            if current',
  '        for _ in 0..16 {\n            if !current.starts_with(rootpath) || current == rootpath {\n                break;\n            }\n            if current')]},
  needs="a test more than 16 directories below its subproject", breaks="the test is put in the group of the root",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap().canonicalize().unwrap();
    std::fs::create_dir_all(root.join("sub")).unwrap();
    std::fs::write(root.join("sub/pyproject.toml"), "").unwrap();
    for depth in [0usize, 3, 15, 16, 40] {
        let dir = format!("sub{}", "/d".repeat(depth));
        std::fs::create_dir_all(root.join(&dir)).unwrap();
        std::fs::write(root.join(&dir).join("test_a.py"), "").unwrap();
        let groups = subproject::group_tests_by_subproject(&root, &[format!("{dir}/test_a.py::t")]);
        check(groups.keys().next() == Some(&root.join("sub")), &format!("a test {depth} levels down"));
    }
}
'''),
 dict(id="c05-backslash", property="C05", edits={SP: [(
  'new_node.push_str(test);', 'new_node.push_str(&test.replace(\'\\\\\', "/"));')]},
  needs="an id with a backslash behind the file path", breaks="the id of the test is changed",
  rs=r'''
fn main() {
    let root = std::env::current_dir().unwrap();
    for id in ["t", "t[a/b]", "t[a\\b]"] {
        let got = subproject::make_test_paths_relative(&[format!("sub/a.py::{id}")], &root, &root.join("sub"));
        check(got == vec![format!("a.py::{id}")], id);
    }
}
'''),
 dict(id="c06-empty-arg", property="C06", edits={X: [(
  '    run_cmd.args(pytest_args);\n', '    run_cmd.args(pytest_args.iter().filter(|arg| !arg.trim().is_empty()));\n')]},
  needs="an extra argument that is empty, such as the value of -m", breaks="the argument is not passed",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap();
    let program = script("fake", "for a in \\"$@\\"; do echo \\"<$a>\\"; done > got");
    pytest_executor::execute_tests(&program, &[], strs(&["a.py::t"]), strs(&["-x", "-m", "", "-v"]), Some(&root), &[]);
    let got = std::fs::read_to_string("got").unwrap();
    check(got.ends_with("<a.py::t>\\n<-x>\\n<-m>\\n<>\\n<-v>\\n"), &got);
}
'''),
 dict(id="c06-env-empty", property="C06", edits={W: [(
  '''            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }
''',
  '''            for (key, value) in task.env_vars {
                if value.is_empty() {
                    cmd.env_remove(key);
                } else {
                    cmd.env(key, value);
                }
            }
''')]},
  needs="an environment variable configured with an empty value", breaks="the variable is not set",
  rs='''
fn main() {
    let program = script("fake", r#"echo "${DEMO_A-unset} ${DEMO_B-unset}""#);
    let mut pool = WorkerPool::new();
    pool.spawn_worker(WorkerTask {
        worker_id: 0, program, initial_args: vec![], tests: vec![], pytest_args: vec![], working_dir: None,
        env_vars: vec![("DEMO_A".to_string(), "1".to_string()), ("DEMO_B".to_string(), String::new())],
    });
    let results = pool.wait_for_all();
    check(results[0].stdout.trim_end_matches('\\n') == "1 ", &results[0].stdout);
}
'''),
 dict(id="c22-imported", property="C22", edits={PW: [(
  '    return any(fnmatch.fnmatch(name, p) for p in patterns)\n\n\ndef _is_test_class',
  '    if name != obj.__name__:\n        return False  # an alias of a function that is found under its own name\n    return any(fnmatch.fnmatch(name, p) for p in patterns)\n\n\ndef _is_test_class')]},
  needs="a module-level test name bound to a function of another name", breaks="the test is not discovered",
  py=RUN + '''
rc, recs = run("plain", "def test_a():\\n    pass\\n")
check(len(recs) == 1, "a plain test")
rc, recs = run("alias", "def make():\\n    def inner():\\n        pass\\n    return inner\\ntest_made = make()\\n")
check(len(recs) == 1, "a test that was made by a function")
'''),
 dict(id="c22-both", property="C22", edits={PW: [(
  '                    if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):\n                        continue\n',
  '                    if method_name.startswith("_") or not fnmatch.fnmatch(method_name, python_functions[-1]):\n                        continue\n')]},
  needs="more than one pattern for functions", breaks="a method that matches another pattern than the last is not run",
  py=RUN + '''
T = "class TestA:\\n    def test_a(self):\\n        pass\\n    def check_a(self):\\n        pass\\n"
check(len(run("one", T)[1]) == 1, "one pattern")
check(len(run("two", T, python_functions=["test*", "check*"])[1]) == 2, "two patterns")
'''),
 dict(id="c33-base-dir", property="C33", edits={N: [(
  '''    let temp_dir = match TempDir::with_prefix("rtest-") {
        Ok(dir) => dir,
''',
  '''    let base = std::env::temp_dir().join(format!("rtest-{}", config.num_workers));
    let temp_dir = match std::fs::create_dir_all(&base).and_then(|()| TempDir::new_in(&base)) {
        Ok(dir) => dir,
''')]},
  needs="a look at the temporary directory after the run", breaks="a directory is left behind",
  rs=NATIVE + '''
fn main() {
    let tmp = std::env::current_dir().unwrap().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    let good = script("good", r#"''' + BODY + '''echo '{"nodeid":"b::t","outcome":"passed","duration_ms":1.0,"error":null}' > "$out"'''
  + '''"#);
    check(native(good, &names(3), 3) == Some(0), "the run passes");
    check(std::fs::read_dir(&tmp).unwrap().count() == 0, "nothing is left by a run");
}
'''),
 dict(id="c27-lock", property="C27", edits={N: [(
  '''    let output = cmd
        .output()
        .map_err(''',
  '''    // The interpreter writes its byte code when it starts: one after another
    static START: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _started = START.lock().unwrap_or_else(|e| e.into_inner());
    let output = cmd
        .output()
        .map_err(''')]},
  needs="two workers of which one waits for the other", breaks="each worker runs only after the one before has ended",
  rs=NATIVE + '''
fn main() {
    let root = std::env::current_dir().unwrap();
    let python = script("fake", &(r#"''' + BODY + '''touch here-$$
n=0
while [ $(ls ROOT | grep -c '^here-') -lt 2 ]; do n=$((n+1)); [ $n -gt 60 ] && exit 9; sleep 0.1; done
: > $out"#.replace("ROOT", root.to_str().unwrap())));
    check(native(python, &names(2), 2) == Some(0), "two workers run at the same time");
}
'''),
 dict(id="c28-flat", property="C28", edits={PW: [(
  'module_name = str(rel_path).replace("/", ".").replace("\\\\", ".")', 'module_name = str(rel_path).replace("/", "_").replace("\\\\", "_")')]},
  needs="files a/b_c.py and a_b/c.py", breaks="two files are loaded as one module",
  py=RUN + '''
T = "import sys\\nme = sys.modules[__name__]\\ndef test_a():\\n    assert sys.modules[__name__].__file__ == __file__\\n"
rc, recs = run("plain", {"a/test_b.py": T, "c/test_b.py": T})
check(rc == 0 and len(recs) == 2, "same name in two directories")
rc, recs = run("odd", {"a/test_b.py": T, "a_test/b.py": T, "a/test.py": T})
check(rc == 0 and len(recs) == 3, "names that coincide when joined")
'''),
 dict(id="c30-lazy", property="C30", edits={M: [(
  '''        spec = ParametrizeSpec(
            argnames=parsed_argnames,
            argvalues=tuple(argvalues),
            ids=materialized_ids,
        )

        def decorator(func: F) -> F:
''',
  '''        def decorator(func: F) -> F:
            spec = ParametrizeSpec(
                argnames=parsed_argnames,
                argvalues=tuple(argvalues),
                ids=materialized_ids,
            )
''')]},
  needs="one decorator with a generator as its values, applied to two functions", breaks="the second function gets no cases",
  py=RUN + '''
T = """
import rtest
d = rtest.mark.cases('x', %s)
@d
def test_a(x):
    pass
@d
def test_b(x):
    pass
"""
check(len(run("list", T % "[1, 2]")[1]) == 4, "a list")
check(len(run("gen", T % "(i for i in (1, 2))")[1]) == 4, "a generator")
'''),
 dict(id="c31-lower", property="C31", edits={SC: [(
  '        match s {\n            "load" =>', '        match s.to_ascii_lowercase().as_str() {\n            "load" =>')]},
  needs="a mode name in capitals", breaks="a name that is no mode is accepted",
  rs='''
fn main() {
    for (name, ok) in [("load", true), ("loadfile", true), ("lod", false), ("Load", false), ("NO", false)] {
        check(name.parse::<DistributionMode>().is_ok() == ok, name);
    }
}
'''),
 dict(id="c32-case", property="C32", edits={N: [(
  'if path.extension().is_none_or(|ext| ext != "py") {', 'if path.extension().is_none_or(|ext| !ext.eq_ignore_ascii_case("py")) {')]},
  needs="a file whose extension is written in capitals and a pattern that matches it", breaks="a file that does not end in .py is run",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap();
    for f in ["test_a.py", "test_b.PY", "test_c.pyc"] {
        std::fs::write(root.join(f), "").unwrap();
    }
    let got = collect_test_files(&root, &[], &strs(&["test_*"]));
    check(got == vec![root.join("test_a.py")], &format!("{got:?}"));
}
'''),
 dict(id="c32-links", property="C32", edits={N: [(
  '    WalkDir::new(dir)\n        .into_iter()', '    WalkDir::new(dir)\n        .follow_root_links(true)\n        .same_file_system(false)\n        .follow_links(true)\n        .into_iter()')]},
  needs="a symbolic link to a directory below the named directory", breaks="files behind the link are run, a second time",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap().join("p");
    std::fs::create_dir_all(root.join("a")).unwrap();
    std::fs::write(root.join("a/test_a.py"), "").unwrap();
    check(collect_test_files(&root, &[], &strs(&["test_*.py"])).len() == 1, "one file");
    std::os::unix::fs::symlink(root.join("a"), root.join("b")).unwrap();
    check(collect_test_files(&root, &[], &strs(&["test_*.py"])).len() == 1, "a link is followed");
}
'''),
 dict(id="c02-class-name", property="C02", edits={SC: [(
  '''    test_path
        .split("::")
        .next()
        .unwrap_or(test_path)
        .to_string()
''',
  '''    let file = test_path.split("::").next().unwrap_or(test_path);
    match test_path.rsplit_once('[') {
        // Cases that come in bulk may run anywhere
        Some((_, id)) if id.len() > 200 => test_path.to_string(),
        _ => file.to_string(),
    }
''')]},
  needs="a case id of more than 200 characters, in loadfile mode", breaks="the case may run in another worker than the rest of its file",
  rs=BAT + '''
fn main() {
    for len in [3, 150, 300] {
        let long = format!("a.py::t[{}]", "x".repeat(len));
        let got = batches("loadfile", &["a.py::s", &long, "b.py::u", "c.py::u"], 4);
        check(got.iter().filter(|b| b.iter().any(|t| t.starts_with("a.py"))).count() == 1, &format!("id of {len}"));
    }
}
'''),
]
