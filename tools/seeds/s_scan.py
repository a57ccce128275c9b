N = "src/native_runner.rs"
REAL = '''
fn tree(files: &[&str]) -> (tempfile::TempDir, PathBuf) {
    let d = tempfile::tempdir().unwrap();
    let root = d.path().join("proj");
    for f in files {
        let p = root.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, "").unwrap();
    }
    (d, root)
}
fn found(root: &Path, names: &[&str], patterns: &[&str]) -> Vec<String> {
    collect_test_files(root, &strs(names), &strs(patterns))
        .iter()
        .map(|p| p.strip_prefix(root).unwrap_or(p).display().to_string())
        .collect()
}
'''
SEEDS = [
 dict(id="c32-deep", property="C32", edits={N: [("WalkDir::new(dir)\n", "WalkDir::new(dir)\n        .max_depth(12)\n")]},
  needs="a test file more than twelve directories down", breaks="the file is silently not executed", rs=REAL + '''
fn main() {
    let deep = format!("{}test_deep.py", "d/".repeat(40));
    let (_d, root) = tree(&["test_a.py", &deep]);
    check(found(&root, &[], &["test_*.py"]) == strs(&[&deep, "test_a.py"]), "a deep file is not found");
}
'''),
 dict(id="c32-cache-like", property="C32", edits={N: [('name == "__pycache__"', 'name.ends_with("cache__")')]},
  needs="a directory whose name ends like that of the bytecode cache", breaks="tests below it are silently not executed", rs=REAL + '''
fn main() {
    let names = ["tests__pycache__", "lru_cache__", "__cache__", "build", "node_modules", "venv", "dist", "a.b"];
    for n in names {
        let f = format!("{n}/test_a.py");
        let (_d, root) = tree(&[&f]);
        check(found(&root, &[], &["test_*.py"]) == strs(&[&f]), &format!("{f} is not found"));
    }
    let (_d, root) = tree(&["__pycache__/test_a.py", ".tox/x/test_b.py", "a/.b/test_c.py", "test_d.py"]);
    check(found(&root, &[], &["test_*.py"]) == strs(&["test_d.py"]), "a hidden or cache directory is searched");
}
'''),
 dict(id="c32-stem", property="C32", edits={N: [('let file_name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");', '''let file_name = path.to_str().and_then(|p| p.rsplit(['/', '\\\\']).next()).unwrap_or("");''')]},
  needs="a backslash in a file name", breaks="the patterns are compared with a part of the name", rs=REAL + '''
fn main() {
    let (_d, root) = tree(&["x\\\\test_a.py", "test_b.py"]);
    check(found(&root, &[], &["test_*.py"]) == strs(&["test_b.py"]), "a file that matches no pattern is found");
}
'''),
 dict(id="c32-sort-key", property="C32", edits={N: [("    test_files.sort();\n", "    test_files.sort_by_cached_key(|p| p.to_string_lossy().to_lowercase());\n")]},
  needs="file names with capital letters", breaks="the files are not in order", rs=REAL + '''
fn main() {
    let (_d, root) = tree(&["a/test_B.py", "a/test_a.py", "B/test_c.py"]);
    check(found(&root, &[], &["test_*.py"]) == strs(&["B/test_c.py", "a/test_B.py", "a/test_a.py"]), "the files are not sorted");
    check(found(&root, &["a/test_a.py", "a", "a"], &["test_*.py"]).len() == 2, "a file is found twice");
}
'''),
]
