from s_thr import W, N, R, X, NATIVE, BODY

# the program runs itself with an argument, to see what a run prints
SELF = '''
fn this(args: &[&str]) -> (String, String) {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(args).output().unwrap();
    (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned())
}
'''
PAR = '''
fn parallel(program: &str, workers: usize, use_subprojects: bool, tests: &[String]) -> i32 {
    let root = std::env::current_dir().unwrap();
    let config = ParallelExecutionConfig {
        program, initial_args: &[], worker_count: workers, dist_mode: "load", rootpath: &root, use_subprojects, env_vars: &[],
    };
    execute_tests_parallel(&config, tests.to_vec())
}
'''
SEEDS = [
 dict(id="c03-utf8", property="C03", edits={W: [(
  'stdout: String::from_utf8_lossy(&output.stdout).into_owned(),', 'stdout: String::from_utf8(output.stdout).unwrap_or_default(),')]},
  needs="a worker whose output is not valid UTF-8", breaks="the whole output of that worker is lost",
  rs=SELF + PAR + r'''
fn main() {
    let program = script("fake", "printf 'caf\\351 '; echo report-of-the-run");
    let plain = script("plain", "echo plain-report");
    if std::env::args().count() > 1 {
        let program = if std::env::args().nth(1).unwrap() == "plain" { plain } else { program };
        parallel(&program, 2, false, &strs(&["a.py::t1", "b.py::t2"]));
        return;
    }
    check(this(&["plain"]).0.matches("plain-report").count() == 2, "the output of both workers is shown");
    check(this(&["latin"]).0.matches("report-of-the-run").count() == 2, "the output of a worker is lost");
}
'''),
 dict(id="c03-stderr", property="C03", edits={R: [(
  '''            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    }
}''',
  '''            if result.exit_code != 0 {
                if result.stdout.is_empty() || !result.stderr.is_empty() {
                    eprint!("{}", result.stderr);
                }
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    }
}''')]},
  needs="a worker that succeeds and writes to its standard error, without subprojects", breaks="what the worker wrote there is not shown",
  rs=SELF + PAR + '''
fn main() {
    let program = script("fake", "echo a-warning >&2; case \\"$*\\" in *bad*) exit 1;; esac");
    if let Some(name) = std::env::args().nth(1) {
        parallel(&program, 2, std::env::args().count() > 2, &[format!("a.py::{name}"), format!("b.py::{name}")]);
        return;
    }
    for args in [&["bad"][..], &["good"], &["bad", "sub"], &["good", "sub"]] {
        check(this(args).1.matches("a-warning").count() == 2, &format!("standard error is shown: {args:?}"));
    }
}
'''),
 dict(id="c03-limit", property="C03", edits={W: [(
  "            for test in task.tests {\n", "            // The system limits the length of a command line\n            for test in task.tests.into_iter().take(2048) {\n")]},
  needs="a batch of more than 2048 tests", breaks="the tests beyond are given to no worker",
  rs='''
fn main() {
    let program = script("fake", "echo $#");
    for n in [1usize, 100, 3000] {
        let mut pool = WorkerPool::new();
        pool.spawn_worker(WorkerTask {
            worker_id: 0, program: program.clone(), initial_args: vec![],
            tests: (0..n).map(|i| format!("t.py::t{i}")).collect(), pytest_args: vec![], working_dir: None, env_vars: vec![],
        });
        let results = pool.wait_for_all();
        check(results[0].stdout.trim() == n.to_string(), &format!("a batch of {n} tests reaches its worker"));
    }
}
'''),
 dict(id="c08-dedup", property="C08", edits={N: [(
  '''    let actual_workers = num_workers.min(files.len());
''',
  '''    // A file may be named on the command line and found by the walk
    let mut files = files;
    files.dedup_by(|a, b| a.file_name() == b.file_name());
    let actual_workers = num_workers.min(files.len());
''')]},
  needs="two files of the same name in neighbouring directories", breaks="the second file is given to no worker",
  rs=NATIVE + '''
fn main() {
    let root = std::env::current_dir().unwrap();
    let python = script("fake", &(r#"''' + BODY + '''for f in "$@"; do echo "$f"; done >> "#.to_string()
        + root.to_str().unwrap() + "/given; : > $out"));
    let files = strs(&["a/test_one.py", "a/test_two.py", "b/test_two.py", "c/test_one.py"]);
    native(python, &files, 2);
    let given = std::fs::read_to_string("given").unwrap();
    for f in &files {
        check(given.lines().filter(|l| l.ends_with(f)).count() == 1, &format!("{f} is given to one worker"));
    }
}
'''),
 dict(id="c08-utf8", property="C08", edits={N: [(
  '''    for file in files {
        cmd.arg(file);
    }
''',
  '''    cmd.args(files.iter().filter_map(|file| file.to_str()));
''')]},
  needs="a test file whose path is not valid UTF-8", breaks="the file is not on the command line of its worker",
  rs=NATIVE + r'''
fn main() {
    use std::os::unix::ffi::OsStrExt;
    let root = std::env::current_dir().unwrap();
    let python = script("fake", &(r#"''' + BODY + r'''echo "$#" >> "#.to_string() + root.to_str().unwrap() + "/given; : > $out"));
    let files = vec![
        root.join("test_a.py"),
        root.join(std::ffi::OsStr::from_bytes(b"test_caf\xe9.py")),
        root.join("test_b.py"),
    ];
    let config = NativeRunnerConfig {
        python_executable: python, root_path: root, num_workers: 1, python_files: strs(&["test_*.py"]),
        python_classes: strs(&["Test*"]), python_functions: strs(&["test*"]),
    };
    execute_native(&config, files);
    check(std::fs::read_to_string("given").unwrap().trim() == "3", "a file is missing from the command line");
}
'''),
 dict(id="c08-large-shards", property="C08", edits={N: [(
  '''    let actual_workers = num_workers.min(files.len());
''',
  '''    // Keep the command line of a worker short
    let actual_workers = num_workers.max(files.len().div_ceil(100)).min(files.len());
''')]},
  needs="more than 100 test files per worker", breaks="there are more worker processes than were requested",
  rs=NATIVE + '''
fn main() {
    let root = std::env::current_dir().unwrap();
    let python = script("fake", &(r#"''' + BODY + '''echo "$#" >> "#.to_string() + root.to_str().unwrap() + "/given; : > $out"));
    for (n, workers) in [(3, 2), (100, 2), (450, 2)] {
        let _ = std::fs::remove_file("given");
        native(python.clone(), &names(n), workers);
        let given = std::fs::read_to_string("given").unwrap();
        check(given.lines().count() == workers, &format!("{n} files run in {workers} workers"));
        check(given.lines().map(|l| l.parse::<usize>().unwrap()).sum::<usize>() == n, "every file is given once");
    }
}
'''),
 dict(id="c10-unlisted", property="C10", edits={N: [(
  '''                _ => {
                    aggregated.error += 1;
                    aggregated.errors.push(result);
                }
''',
  '''                _ => {
                    aggregated.error += 1;
                    if result.error.is_some() {
                        aggregated.errors.push(result);
                    }
                }
''')]},
  needs="a result with an unknown outcome and no error information", breaks="the result is counted as an error but not listed",
  rs=SELF + NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''echo '{"nodeid":"a.py::odd","outcome":"interrupted","duration_ms":1.0,"error":null}' > $out
echo '{"nodeid":"a.py::odder","outcome":"lost","duration_ms":1.0,"error":{"type":"x","traceback":"t","reason":"r"}}' >> $out
echo '{"nodeid":"a.py::bad","outcome":"error","duration_ms":1.0,"error":null}' >> $out"#);
    if std::env::args().count() > 1 {
        native(python, &names(1), 1);
        return;
    }
    let (out, _) = this(&["run"]);
    check(out.contains("3 error"), "the errors are counted");
    for id in ["a.py::odd", "a.py::odder", "a.py::bad"] {
        check(out.lines().any(|l| l.trim() == id), &format!("{id} is listed"));
    }
}
'''),
 dict(id="c10-narrow", property="C10", edits={N: [(
  '''    let status = if results.failed > 0 || results.error > 0 {
''',
  '''    let problems = (results.failed + results.error) as u8;
    let status = if problems > 0 {
''')]},
  needs="exactly 256 failed and errored results", breaks="the summary says PASSED",
  rs=SELF + NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''n=0
: > $out
count=${1#*test_}; count=${count%.py}
while [ $n -lt $count ]; do
  echo '{"nodeid":"a.py::t'$n'","outcome":"failed","duration_ms":1.0,"error":null}' >> $out
  n=$((n+1))
done"#);
    if let Some(n) = std::env::args().nth(1) {
        native(python, &[format!("test_{n}.py")], 1);
        return;
    }
    for n in ["1", "255", "256", "512"] {
        check(this(&[n]).0.contains("FAILED"), &format!("the summary of {n} failures"));
    }
    check(this(&["0"]).0.contains("PASSED"), "the summary of an empty run");
}
'''),
 dict(id="c10-long-list", property="C10", edits={N: [(
  '''    for result in results {
        println!("  {}", result.nodeid);
''',
  '''    let mut last = "";
    for result in results {
        // One heading per file
        let (file, test) = result.nodeid.split_once("::").unwrap_or(("", &result.nodeid));
        if file != last {
            println!("  {}", result.nodeid);
            last = file;
        } else {
            println!("    {}", test);
        }
''')]},
  needs="two failures in one file", breaks="the second is listed without its file, not by its node id",
  rs=SELF + NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''for t in a.py::one a.py::two b.py::three; do
  echo '{"nodeid":"'$t'","outcome":"failed","duration_ms":1.0,"error":null}' >> $out
done"#);
    if std::env::args().count() > 1 {
        native(python, &names(1), 1);
        return;
    }
    let (out, _) = this(&["run"]);
    for id in ["a.py::one", "a.py::two", "b.py::three"] {
        check(out.lines().any(|l| l.trim() == id), &format!("{id} is listed"));
    }
}
'''),
]
