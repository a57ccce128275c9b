from s_thr import NATIVE, BODY
S, U, N, C, CLI, R = "src/scheduler.rs", "src/subproject.rs", "src/native_runner.rs", "src/config.rs", "src/cli.rs", "src/runner.rs"
HOOK = '''
static PANICS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn watch() {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{i}");
        PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }));
}
fn calm<T>(what: &str, f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Option<T> {
    let r = std::panic::catch_unwind(f);
    check(r.is_ok() && PANICS.load(std::sync::atomic::Ordering::SeqCst) == 0, what);
    r.ok()
}
'''
# an interpreter that answers as a worker would, with the given lines
OUT = '''out=""; while [ $# -gt 0 ]; do [ "$1" = --out ] && out="$2"; shift; done\\n'''
SEEDS = [
 dict(id="c24-name-byte", property="C24", edits={N: [(
  "    name.starts_with('.') || name == \"__pycache__\"\n", "    name.is_empty() || &name[..1] == \".\" || name == \"__pycache__\"\n")]},
  needs="a file or directory whose name starts with a character of several bytes", breaks="looking for the test files of such a tree panics",
  rs=HOOK + '''
fn main() {
    watch();
    let root = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir_all(root.join("été")).unwrap();
    std::fs::create_dir_all(root.join("日本")).unwrap();
    for n in ["été/test_a.py", "日本/test_b.py", "test_c.py", "ß.py"] {
        std::fs::write(root.join(n), "").unwrap();
    }
    let got = calm("a tree with names of multi-byte characters", || collect_test_files(&root, &[], &strs(&["test_*.py"])));
    check(got.map(|g| g.len()) == Some(3), "all three test files are found");
}
'''),
 dict(id="c24-long-line", property="C24", edits={N: [(
  '            println!("    {}", line);\n', '            // Long values would drown the summary\n            println!("    {}", if line.len() > 500 { &line[..500] } else { line });\n')]},
  needs="a failure whose traceback has a line of over 500 bytes with a multi-byte character across byte 500", breaks="printing the summary panics and the run dies",
  rs=NATIVE + HOOK + '''
fn main() {
    watch();
    let text = format!("E   AssertionError: a{}", "é".repeat(400));
    let sh = script("py", &format!("out=\\"\\"; while [ $# -gt 0 ]; do [ \\"$1\\" = --out ] && out=\\"$2\\"; shift; done\\ncat > \\"$out\\" <<'EOF'\\n{{\\"nodeid\\":\\"test_0.py::test_a\\",\\"outcome\\":\\"failed\\",\\"duration_ms\\":1.0,\\"stdout\\":\\"\\",\\"stderr\\":\\"\\",\\"error\\":{{\\"message\\":\\"m\\",\\"traceback\\":\\"{text}\\"}}}}\\nEOF\\nexit 1\\n"));
    let got = calm("a long line of multi-byte text in a traceback", || native(sh, &names(1), 1));
    check(got == Some(Some(1)), "the run ends with exit code 1");
}
'''),
 dict(id="c24-no-tests", property="C24", edits={N: [(
  "    let duration_secs = results.total_duration_ms / 1000.0;\n", "    let duration_secs = results.total_duration_ms / 1000.0;\n    log::debug!(\"average per test\");\n    let share = (results.passed + results.skipped) * 100 / results.total;\n    if share < 100 {\n        println!(\"{share}% of the tests did not fail\");\n    }\n")]},
  needs="test files that hold no tests", breaks="the summary of a run without any result divides by zero",
  rs=NATIVE + HOOK + '''
fn main() {
    watch();
    let sh = script("py", "out=\\"\\"; while [ $# -gt 0 ]; do [ \\"$1\\" = --out ] && out=\\"$2\\"; shift; done\\n: > \\"$out\\"\\n");
    let got = calm("a run whose files hold no tests", || native(sh, &names(3), 2));
    check(got == Some(Some(0)), "the run ends with exit code 0");
}
'''),
 dict(id="c24-stderr-bytes", property="C24", edits={N: [(
  "                let stderr = String::from_utf8_lossy(&output.stderr);\n", "                let stderr = String::from_utf8(output.stderr).expect(\"worker messages are UTF-8\");\n")]},
  needs="a worker that crashes after writing bytes that are not UTF-8 to its error output", breaks="the thread that waits for the worker panics, and the message is lost",
  rs=NATIVE + HOOK + '''
fn main() {
    watch();
    let sh = script("py", "printf 'bad \\\\377\\\\376 bytes' >&2\\nexit 3\\n");
    let got = calm("a crashed worker's error output in another encoding", || native(sh, &names(2), 2));
    check(got == Some(Some(1)), "the run ends with exit code 1");
}
'''),
 dict(id="c24-conf-table", property="C24", edits={C: [(
  "        .and_then(|p| p.get(\"ini_options\"));\n", "        .map(|p| p.as_table().expect(\"tool.pytest is a table\"))\n        .and_then(|p| p.get(\"ini_options\"));\n")]},
  needs="a pyproject.toml in which tool.pytest is not a table", breaks="reading the configuration panics",
  rs=HOOK + '''
fn main() {
    watch();
    let root = std::env::current_dir().unwrap().join("proj");
    std::fs::create_dir_all(&root).unwrap();
    for text in ["", "[tool]\\npytest = \\"8\\"\\n", "tool = 3\\n", "[tool.pytest]\\nini_options = [1]\\n", "[tool.pytest.ini_options]\\ntestpaths = 3\\n", "["] {
        std::fs::write(root.join("pyproject.toml"), text).unwrap();
        let c = calm(&format!("configuration {text:?}"), || config::read_pytest_config(&root));
        check(c.map(|c| c.testpaths.is_empty()) == Some(true), "no paths are configured");
    }
}
'''),
 dict(id="c24-digits", property="C24", edits={CLI: [(
  "                _ => match s.parse::<usize>() {\n                    Ok(n) => Ok(Some(NumProcesses::Count(n))),\n                    Err(_) => Err(format!(\"Invalid number: {s}\")),\n                },\n",
  "                _ if s.is_empty() || s.contains(|c: char| !c.is_ascii_digit()) => {\n                    Err(format!(\"Invalid number: {s}\"))\n                }\n                _ => Ok(Some(NumProcesses::Count(s.parse().unwrap()))),\n")]},
  needs="a number of workers too large for the machine's integers", breaks="the command line makes the program panic instead of being refused",
  rs=HOOK + '''
fn main() {
    watch();
    for n in ["4", "0", "18446744073709551616", "99999999999999999999999", "x", ""] {
        let got = calm(&format!("-n {n:?}"), || {
            let mut a: cli::Args = clap::Parser::parse_from(["rtest"]);
            a.numprocesses = Some(n.to_string());
            a.get_num_processes().is_ok()
        });
        check(got == Some(n.len() == 1 && n != "x"), "numbers are taken, other text refused");
    }
}
'''),
]
