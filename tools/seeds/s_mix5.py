from s_py import RUN, REAL, M, S, W as PW
from s_thr import W, N, R, X, NATIVE, BODY
from s_res import SELF, PAR

SEEDS = [
 dict(id="c08-zip-limit", property="C08", edits={N: [(
  '''    let output_files: Vec<PathBuf> = (0..shards.len())
''', '''    let output_files: Vec<PathBuf> = (0..shards.len().min(64))
''')]},
  needs="more than 64 native workers", breaks="the shards beyond the 64th are given to no worker",
  rs=NATIVE + '''
fn main() {
    let root = std::env::current_dir().unwrap();
    let python = script("fake", &(r#"''' + BODY + '''echo "$#" >> "#.to_string() + root.to_str().unwrap() + "/given; : > $out"));
    for n in [3, 70] {
        let _ = std::fs::remove_file("given");
        native(python.clone(), &names(n), n);
        let given = std::fs::read_to_string("given").unwrap();
        check(given.lines().map(|l| l.parse::<usize>().unwrap()).sum::<usize>() == n, "every file is given once");
    }
}
'''),
 dict(id="c09-map-while", property="C09", edits={N: [(
  '''    for (line_num, line) in reader.lines().enumerate() {
        let line = line.map_err(|e| format!("Failed to read line {}: {}", line_num + 1, e))?;

''', '''    for (line_num, line) in reader.lines().map_while(Result::ok).enumerate() {
''')]},
  needs="a result file with a line that is not UTF-8, or a read error in the middle", breaks="the results after that line are dropped and the run succeeds",
  rs=NATIVE + '''
fn main() {
    let pass = r#"{"nodeid":"a::t","outcome":"passed","duration_ms":1.0,"error":null}"#;
    let good = script("good", &format!("''' + BODY.replace('"', '\\"').replace("\n", "\\n") + '''echo '{pass}' > $out"));
    let bad = script("bad", &format!("''' + BODY.replace('"', '\\"').replace("\n", "\\n") + '''echo '{pass}' > $out; printf '\\\\377\\\\n' >> $out; echo '{}' >> $out", pass.replace("passed", "failed")));
    check(native(good, &names(1), 1) == Some(0), "a pass");
    check(native(bad, &names(1), 1) == Some(1), "an unreadable line");
}
'''),
 dict(id="c10-same-id", property="C10", edits={N: [(
  '''    for results in all_results {
        for result in results {
            aggregated.total += 1;
''', '''    let mut seen = std::collections::HashSet::new();
    for results in all_results {
        for result in results {
            // A restarted worker reports its tests again
            if !seen.insert(result.nodeid.clone()) {
                continue;
            }
            aggregated.total += 1;
''')]},
  needs="two results with one node id, such as a test of a file given under two spellings", breaks="a failure that follows a pass of the same name is not counted",
  rs=NATIVE + '''
fn main() {
    for (first, second, code) in [("passed", "passed", 0), ("failed", "passed", 1), ("passed", "failed", 1)] {
        let line = |o: &str| format!(r#"echo '{{"nodeid":"a::t","outcome":"{o}","duration_ms":1.0,"error":null}}' >> $out"#);
        let python = script(&format!("fake{second}"), &format!("''' + BODY.replace('"', '\\"').replace("\n", "\\n") + '''{}; {}", line(first), line(second)));
        check(native(python, &names(1), 1) == Some(code), &format!("{first} then {second}"));
    }
}
'''),
 dict(id="c10-no-details", property="C10", edits={N: [(
  '''    for result in results {
        println!("  {}", result.nodeid);
        if let Some(error) = &result.error {
            print_error_info(error);
        }
    }
''', '''    for result in results {
        if let Some(error) = &result.error {
            println!("  {}", result.nodeid);
            print_error_info(error);
        }
    }
''')]},
  needs="a failed result without error details", breaks="the failed test is not listed",
  rs=SELF + NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''echo '{"nodeid":"a.py::plain","outcome":"failed","duration_ms":1.0,"error":null}' > $out
echo '{"nodeid":"a.py::full","outcome":"failed","duration_ms":1.0,"error":{"type":"x","traceback":"t","reason":"r"}}' >> $out"#);
    if std::env::args().count() > 1 {
        native(python, &names(1), 1);
        return;
    }
    let (out, _) = this(&["run"]);
    for id in ["full", "plain"] {
        check(out.contains(&format!("a.py::{id}")), id);
    }
}
'''),
 dict(id="c26-pid-dir", property="C26", edits={N: [(
  '''    let temp_dir = match TempDir::with_prefix("rtest-") {
        Ok(dir) => dir,
''', '''    let base = std::env::temp_dir().join(format!("rtest-{}", std::process::id()));
    let temp_dir = match std::fs::create_dir_all(&base).and_then(|_| TempDir::with_prefix_in("run-", &base)) {
        Ok(dir) => dir,
'''), ('''        .map(|i| temp_dir.path().join(format!("worker-{}.jsonl", i)))
''', '''        .map(|i| base.join(format!("worker-{}.jsonl", i)))
''')]},
  needs="two native runs in one process, at once or one after the other", breaks="a worker that writes nothing is credited with the results of the run before, and the files are left behind",
  rs=NATIVE + '''
fn main() {
    let good = script("good", r#"''' + BODY + '''echo '{"nodeid":"a::t","outcome":"passed","duration_ms":1.0,"error":null}' > $out"#);
    let none = script("none", "exit 0");
    check(native(none.clone(), &names(1), 1) == Some(1), "no results");
    check(native(good, &names(1), 1) == Some(0), "a pass");
    let again = native(none, &names(1), 1);
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("rtest-{}", std::process::id())));
    check(again == Some(1), "no results after a run with results");
}
'''),
 dict(id="c04-masked", property="C04", edits={W: [(
  '''                    exit_code: output.status.code().unwrap_or(-1),
''', '''                    exit_code: output.status.code().map_or(-1, |code| code & 0x7f),
''')]},
  needs="a worker that exits with code 128", breaks="the run exits 0",
  rs=PAR + '''
fn main() {
    for code in [0, 1, 2, 127, 128, 255] {
        let program = script(&format!("fake{code}"), &format!("exit {code}"));
        check((parallel(&program, 2, false, &strs(&["a.py::t", "b.py::t"])) == 0) == (code == 0), &format!("exit code {code}"));
    }
}
'''),
 dict(id="c03-crlf", property="C03", edits={W: [(
  '''                    stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
''', '''                    stdout: match output.stdout.iter().position(|b| *b == 0x1a) {
                        // Nothing follows an end-of-file character
                        Some(end) => String::from_utf8_lossy(&output.stdout[..end]).into_owned(),
                        None => String::from_utf8_lossy(&output.stdout).into_owned(),
                    },
''')]},
  needs="a worker that prints a Ctrl-Z character", breaks="the output after it is not shown",
  rs=SELF + PAR + '''
fn main() {
    let program = script("fake", r#"printf 'before \\032 after\\n'"#);
    if std::env::args().count() > 1 {
        parallel(&program, 2, false, &strs(&["a.py::t", "b.py::t"]));
        return;
    }
    let (out, _) = this(&["run"]);
    check(out.matches("before").count() == 2 && out.matches("after").count() == 2, &out);
}
'''),
 dict(id="c17-empty-reason", property="C17", edits={PW: [(
  '''                    skip_reason = method_skip_reason if method_skip else class_skip_reason
''', '''                    skip_reason = method_skip_reason if method_skip and not class_skip else class_skip_reason
''')]},
  needs="a skipped method, with a reason of its own, of a skipped class", breaks="the reason of the class is reported instead of the one of the method",
  py=RUN + r'''
T = "import rtest\n%sclass TestA:\n    %sdef test_a(self):\n        pass\n"
C, F = "@rtest.mark.skip('class')\n", "@rtest.mark.skip('method')\n    "
for name, c, f, reason in (("c", C, "", "class"), ("f", "", F, "method"), ("both", C, F, "method")):
    rc, recs = run(name, T % (c, f))
    check(recs[0]["outcome"] == "skipped" and recs[0]["error"]["reason"] == reason, recs)
'''),
 dict(id="c17-stop-at-cases", property="C17", edits={PW: [(
  '''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) == "skip":
''', '''    for pytest_mark in reversed(pytest_marks):
        if getattr(pytest_mark, "name", None) in ("usefixtures", "filterwarnings"):
            return False, ""
        if getattr(pytest_mark, "name", None) == "skip":
''')]},
  needs="a pytest skip marker below a usefixtures marker", breaks="the test runs",
  py=RUN + r'''
T = """
class M:
    def __init__(self, name, *args, **kwargs):
        self.name, self.args, self.kwargs = name, args, kwargs
def test_a():
    assert 0
test_a.pytestmark = [%s]
"""
S, U = "M('skip', reason='r')", "M('usefixtures', 'db')"
for name, marks in (("one", S), ("two", U + ", " + S), ("three", S + ", " + U)):
    rc, recs = run(name, T % marks)
    check(recs[0]["outcome"] == "skipped", (marks, recs))
'''),
 dict(id="c18-multiline", property="C18", edits={S: [(
  '''            if not re.search(self.match_expr, value_str):
''', '''            if not any(re.search(self.match_expr, line) for line in value_str.splitlines() or [""]):
''')]},
  needs="a pattern that matches across the lines of the text of an exception", breaks="the expected exception is reported as not matching",
  py='''
import sys
import rtest
for text, pattern in (("one", "on"), ("one\\ntwo", "two"), ("one\\ntwo", r"one\\s+two"), ("", "")):
    try:
        with rtest.raises(ValueError, match=pattern):
            raise ValueError(text)
    except AssertionError:
        sys.exit("the pattern %r matches %r" % (pattern, text))
'''),
 dict(id="c18-cause", property="C18", edits={S: [(
  '''        if not issubclass(exc_type, self.expected_exception):
            return False
''', '''        if not issubclass(exc_type, self.expected_exception):
            if exc_val is None or not isinstance(exc_val.__cause__, self.expected_exception):
                return False
            exc_val = exc_val.__cause__
''')]},
  needs="an unexpected exception raised from an expected one", breaks="the unexpected exception is swallowed",
  py='''
import sys
import rtest
try:
    with rtest.raises(KeyError):
        raise ValueError("v")
    sys.exit("swallowed")
except ValueError:
    pass
try:
    with rtest.raises(KeyError):
        raise ValueError("v") from KeyError("k")
    sys.exit("an unexpected exception is swallowed")
except ValueError:
    pass
'''),
]
