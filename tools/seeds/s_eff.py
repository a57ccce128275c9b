import os, importlib.util
def _load(n):
    sp = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(__file__), n + ".py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
T, P = _load("s_thr"), _load("s_py")
N, C, W = "src/native_runner.rs", "src/config.rs", "python/rtest/worker/runner.py"
TREE = '''
fn tree(d: &Path) -> Vec<(PathBuf, Vec<u8>)> {
    let mut out = vec![];
    for x in std::fs::read_dir(d).unwrap() {
        let p = x.unwrap().path();
        if p.is_dir() { out.extend(tree(&p)); out.push((p, vec![])); } else { let b = std::fs::read(&p).unwrap(); out.push((p, b)); }
    }
    out.sort();
    out
}
'''
SEEDS = [
 dict(id="c33-errlog", property="C33", edits={W: [('''                    error={"traceback": traceback.format_exc()},
                    error_type=type(e).__name__,
                )
            )
''', '''                    error={"traceback": _with_context(file_path, e)},
                    error_type=type(e).__name__,
                )
            )
'''), ('''def run_tests(
''', '''def _with_context(file_path: Path, error: BaseException) -> str:
    """The traceback of a failed import; recursion errors are too long for a record and are kept beside the file."""
    text = "".join(traceback.format_exception(type(error), error, error.__traceback__))
    if len(text) > 4000:
        file_path.with_suffix(".traceback").write_text(text)
        text = text[:2000] + "\\n...\\n" + text[-2000:]
    return text


def run_tests(
''')]}, needs="a file whose import fails with a long traceback", breaks="the worker writes a file beside the test file",
 py=P.RUN + '''
run("p", "raise ValueError('short')\\n")
check(not [x for x in Path("p").rglob("*") if x.suffix == ".traceback"], "nothing is written for a short traceback")
run("q", "def f(n):\\n    return g(n + 1)\\ndef g(n):\\n    return h(n + 1)\\ndef h(n):\\n    if n > 200: raise ValueError('x' * 3000)\\n    return f(n + 1)\\nf(0)\\n")
left = sorted(str(x) for x in Path("q").rglob("*") if "__pycache__" not in str(x))
check(left == ["q/out.jsonl", "q/test_a.py"], left)
'''),
 dict(id="c33-tempdir-root", property="C33", edits={N: [('''    let temp_dir = match TempDir::with_prefix("rtest-") {
''', '''    // keep results on the project's own file system unless it is read-only
    let made = TempDir::with_prefix_in(".rtest-", &config.root_path);
    let temp_dir = match made.or_else(|_| TempDir::with_prefix("rtest-")) {
''')]}, needs="someone looking at the project while the run is in progress", breaks="the run's temporary directory is made inside the project",
 rs=T.NATIVE + '''
fn main() {
    let root = std::env::current_dir().unwrap();
    let python = script("fake", &format!(r#"''' + T.BODY.replace("{", "{{").replace("}", "}}") + '''ls -A "{root}" >> "{root}/seen.txt"
echo '{{"nodeid":"b::t","outcome":"passed","duration_ms":1.0,"error":null}}' > "$out"
"#, root = root.display()));
    std::fs::write("seen.txt", "").unwrap();
    check(native(python.clone(), &names(2), 2) == Some(0), "the run passes");
    let seen = std::fs::read_to_string("seen.txt").unwrap();
    check(!seen.lines().any(|l| l.contains(".rtest-")), "nothing of the run is in the project");
}
'''),
 dict(id="c33-quarantine", property="C33", edits={C: [('''    let toml_value: Value = match toml::from_str(&content) {
''', '''    let parsed = toml::from_str(&content).inspect_err(|_| keep_copy(&pyproject_path, &content));
    let toml_value: Value = match parsed {
'''), ('''/// Read pytest configuration from pyproject.toml
''', '''/// Keeps what could not be parsed, for the user to look at.
fn keep_copy(path: &Path, content: &str) {
    let copy = path.with_extension("toml.invalid");
    if let Err(e) = std::fs::write(&copy, content) {
        debug!("Failed to write {copy:?}: {e}");
    }
}

/// Read pytest configuration from pyproject.toml
''')]}, needs="a pyproject.toml that does not parse", breaks="reading the configuration writes a file into the project",
 rs=TREE + '''
fn main() {
    let root = std::env::current_dir().unwrap().join("proj");
    std::fs::create_dir_all(&root).unwrap();
    for text in ["[tool.pytest.ini_options]\\npython_files = ['a.py']\\n", "[tool.pytest", "", "a = 1"] {
        std::fs::write(root.join("pyproject.toml"), text).unwrap();
        let before = tree(&root);
        config::read_pytest_config(&root);
        check(tree(&root) == before, &format!("reading {text:?} changes nothing"));
    }
}
'''),
 dict(id="c33-failed-list", property="C33", edits={N: [('''    let aggregated = aggregate_results(all_results);
''', '''    let aggregated = aggregate_results(noted(all_results, &config.root_path));
'''), ('''pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) -> i32 {
''', '''/// Leaves the list of files in error for the next run.
fn noted(results: Vec<Vec<TestResult>>, root: &Path) -> Vec<Vec<TestResult>> {
    let failed: Vec<String> = results
        .iter()
        .flatten()
        .filter(|r| r.outcome == "error")
        .map(|r| r.nodeid.clone())
        .collect();
    if !failed.is_empty() {
        let _ = std::fs::write(root.join(".rtest_errors"), failed.join("\n"));
    }
    results
}

pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) -> i32 {
''')]}, needs="a test file that cannot be imported", breaks="a list of errors is written into the project",
 rs=T.NATIVE + TREE + '''
fn main() {
    let root = std::env::current_dir().unwrap();
    for outcome in ["passed", "failed", "error"] {
        let python = script("fake", &format!(r#"''' + T.BODY.replace("{", "{{").replace("}", "}}") + '''echo '{{"nodeid":"b::t","outcome":"{outcome}","duration_ms":1.0,"error":null}}' > "$out"
"#));
        let before = tree(&root);
        native(python.clone(), &names(2), 2);
        check(tree(&root) == before, &format!("a run with {outcome} writes nothing"));
    }
}
'''),
]
