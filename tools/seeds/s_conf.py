C = "src/config.rs"
N = "src/native_runner.rs"
D = "src/collection/config.rs"
REAL = '''
use config::{read_pytest_config, PytestConfig};
fn conf(text: &str) -> PytestConfig {
    let d = tempfile::tempdir().unwrap();
    std::fs::write(d.path().join("pyproject.toml"), text).unwrap();
    let c = read_pytest_config(d.path());
    c
}
fn ini(text: &str) -> PytestConfig {
    conf(&format!("[tool.pytest.ini_options]\\n{text}\\n"))
}
fn same(c: &PytestConfig, t: &[&str], f: &[&str], k: &[&str], n: &[&str]) -> bool {
    c.testpaths == t.iter().map(PathBuf::from).collect::<Vec<_>>()
        && c.python_files == strs(f)
        && c.python_classes == strs(k)
        && c.python_functions == strs(n)
}
'''
COMBOS = '''
fn main() {
    let t = ["testpaths = ['a', 'b/c']\\n", "", "testpaths = 3\\n"];
    let f = ["python_files = ['check_*.py']\\n", "", "python_files = 1.5\\n"];
    let k = ["python_classes = ['Suite*', 'Check*']\\n", "", "python_classes = true\\n"];
    let n = ["python_functions = ['it_*']\\n", "", "python_functions = { a = 1 }\\n"];
    for (i, a) in t.iter().enumerate() {
        for (j, b) in f.iter().enumerate() {
            for (l, c) in k.iter().enumerate() {
                for (m, d) in n.iter().enumerate() {
                    let got = ini(&format!("{a}{b}{c}{d}"));
                    let pick = |i: usize, v: &'static [&'static str]| if i == 0 { v } else { &[] as &[&str] };
                    check(
                        same(&got, pick(i, &["a", "b/c"]), pick(j, &["check_*.py"]), pick(l, &["Suite*", "Check*"]), pick(m, &["it_*"])),
                        &format!("wrong settings for {a}{b}{c}{d}"),
                    );
                }
            }
        }
    }
}
'''
SEEDS = [
 dict(id="c29-malformed", property="C29", edits={C: [('''        .and_then(|i| i.get("python_files"))
''', '''        .filter(|i| i.get("testpaths").is_none_or(|t| t.is_array() || t.is_str()))
        .and_then(|i| i.get("python_files"))
''')]},
  needs="a malformed testpaths beside a configured python_files", breaks="python_files falls back to its default because another setting is malformed", rs=REAL + COMBOS),
 dict(id="c29-shared", property="C29", edits={C: [('''        .and_then(|i| i.get("python_functions"))
''', '''        .filter(|_| config.python_classes.len() < 2)
        .and_then(|i| i.get("python_functions"))
''')]},
  needs="two class patterns and a function pattern", breaks="the function patterns are dropped", rs=REAL + COMBOS),
 dict(id="c29-fallback", property="C29", edits={C: [('''        .and_then(|p| p.get("ini_options"));
''', '''        .and_then(|p| p.get("ini_options").or_else(|| p.get("ini-options")).or(Some(p)));
''')]},
  needs="a key of that name directly under tool.pytest", breaks="settings are read from outside the pytest section", rs=REAL + '''
fn main() {
    let c = conf("[tool.pytest]\\npython_files = ['x*.py']\\ntestpaths = ['z']\\n");
    check(same(&c, &[], &[], &[], &[]), "settings outside the section are used");
    let c = conf("[tool.pytest]\\npython_files = ['x*.py']\\n[tool.pytest.ini_options]\\npython_files = ['y*.py']\\n");
    check(same(&c, &[], &["y*.py"], &[], &[]), "the section's settings are not used");
}
'''),
 dict(id="c29-key-or", property="C29", edits={C: [('''.and_then(|i| i.get("python_classes"))''', '''.and_then(|i| i.get("python_classes").or_else(|| i.get("python_files")))''')]},
  needs="python_files configured and python_classes not", breaks="the file patterns are used as class patterns", rs=REAL + COMBOS),
]
