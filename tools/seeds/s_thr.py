W, N, R, X = "src/worker.rs", "src/native_runner.rs", "src/runner.rs", "src/pytest_executor.rs"
NATIVE = '''
fn native(python: String, names: &[String], workers: usize) -> Option<i32> {
    let root = std::env::current_dir().unwrap();
    let files: Vec<PathBuf> = names.iter().map(|n| root.join(n)).collect();
    let config = NativeRunnerConfig {
        python_executable: python,
        root_path: root,
        num_workers: workers,
        python_files: strs(&["test_*.py"]),
        python_classes: strs(&["Test*"]),
        python_functions: strs(&["test*"]),
    };
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(execute_native(&config, files));
    });
    rx.recv_timeout(std::time::Duration::from_secs(40)).ok()
}
fn names(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("test_{i}.py")).collect()
}
'''
# the fake worker: -m rtest.worker --root ROOT --out FILE ... -- FILES
BODY = '''out=$6
while [ "$1" != "--" ]; do shift; done
shift
'''
SEEDS = [
 dict(id="c26-mod", property="C26", edits={N: [(
  'format!("worker-{}.jsonl", i)', 'format!("worker-{:x}.jsonl", i & 0xf)')]},
  needs="more than 16 native workers", breaks="workers 0 and 16 write the same result file, so a failure is lost",
  rs=NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''case "$1" in
  *test_16.py) echo '{"nodeid":"a::t","outcome":"failed","duration_ms":1.0,"error":null}' > "$out";;
  *) case "$1" in *test_0.py) sleep 2;; esac
     echo '{"nodeid":"b::t","outcome":"passed","duration_ms":1.0,"error":null}' > "$out";;
esac"#);
    for n in [1, 3, 16] {
        check(native(python.clone(), &names(n), n) == Some(0), &format!("{n} workers pass"));
    }
    check(native(python.clone(), &names(20), 20) == Some(1), "the failure of worker 16 is reported");
}
'''),
 dict(id="c26-keep", property="C26", edits={N: [(
  '''    // TempDir is automatically cleaned up when dropped
''',
  '''    // Leave the raw results behind when a worker crashed, to look at them
    if !worker_errors.is_empty() {
        let kept = temp_dir.keep();
        log::debug!("results kept in {}", kept.display());
    }
''')]},
  needs="a native run in which a worker crashes", breaks="the temporary directory of the run is left behind",
  rs=NATIVE + '''
fn main() {
    let tmp = std::env::current_dir().unwrap().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    let good = script("good", r#"''' + BODY + '''echo '{"nodeid":"b::t","outcome":"passed","duration_ms":1.0,"error":null}' > "$out"'''
  + '''"#);
    let bad = script("bad", r#"''' + BODY + ''': > "$out"; exit 3"#);
    check(native(good, &names(3), 3) == Some(0), "the run passes");
    check(std::fs::read_dir(&tmp).unwrap().count() == 0, "nothing is left by a good run");
    check(native(bad, &names(3), 3) == Some(1), "the run fails");
    check(std::fs::read_dir(&tmp).unwrap().count() == 0, "nothing is left by a run that crashed");
}
'''),
 dict(id="c26-reread", property="C26", edits={N: [(
  '''    for output_file in &output_files {
        match parse_results_file(output_file) {''',
  '''    for i in 0..output_files.len() {
        let output_file = &temp_dir.path().join(format!("worker-{}.jsonl", i.min(9)));
        match parse_results_file(output_file) {''')]},
  needs="more than 10 native workers", breaks="the result file of worker 9 is read again instead of those of later workers",
  rs=NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''case "$1" in
  *test_11.py) echo '{"nodeid":"a::t","outcome":"failed","duration_ms":1.0,"error":null}' > "$out";;
  *) echo '{"nodeid":"b::t","outcome":"passed","duration_ms":1.0,"error":null}' > "$out";;
esac"#);
    for n in [1, 3, 9] {
        check(native(python.clone(), &names(n), n) == Some(0), &format!("{n} workers pass"));
    }
    check(native(python.clone(), &names(14), 14) == Some(1), "the failure of worker 11 is reported");
}
'''),
 dict(id="c27-read-order", property="C27", edits={W: [(
  '''            match cmd.output() {
                Ok(output) => WorkerResult {''',
  '''            let ran = cmd.spawn().and_then(|mut child| {
                let mut stdout = Vec::new();
                let mut stderr = Vec::new();
                if let Some(mut pipe) = child.stdout.take() {
                    std::io::copy(&mut pipe, &mut stdout)?;
                }
                if let Some(mut pipe) = child.stderr.take() {
                    std::io::copy(&mut pipe, &mut stderr)?;
                }
                let status = child.wait()?;
                Ok(std::process::Output {
                    status,
                    stdout,
                    stderr,
                })
            });
            match ran {
                Ok(output) => WorkerResult {''')]},
  needs="a pytest worker that writes more than 64 KB to stderr before it closes stdout", breaks="runner and worker wait for each other for ever",
  rs='''
fn main() {
    let program = script("noisy", "i=0\\nwhile [ $i -lt 3000 ]; do echo 0123456789012345678901234567890123456789012345678901234567890123456789 >&2; i=$((i+1)); done\\necho done");
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut pool = WorkerPool::new();
        for i in 0..2 {
            pool.spawn_worker(WorkerTask {
                worker_id: i,
                program: program.clone(),
                initial_args: vec![],
                tests: strs(&["a"]),
                pytest_args: vec![],
                working_dir: None,
                env_vars: vec![],
            });
        }
        let _ = tx.send(pool.wait_for_all());
    });
    let got = rx.recv_timeout(std::time::Duration::from_secs(30));
    check(got.is_ok(), "the workers finish");
    let got = got.unwrap();
    check(got.len() == 2 && got.iter().all(|r| r.stderr.lines().count() == 3000 && r.exit_code == 0 && r.stdout.trim() == "done"), "all output is there");
}
'''),
 dict(id="c27-wait", property="C27", edits={N: [(
  '''    let output = cmd
        .output()
        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
''',
  '''    let mut child = cmd
        .spawn()
        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
    child
        .wait()
        .map_err(|e| format!("Worker {} was lost: {}", worker_id, e))?;
    let output = child
        .wait_with_output()
        .map_err(|e| format!("Worker {} was lost: {}", worker_id, e))?;
''')]},
  needs="a native worker that prints more than a pipe holds (64 KB)", breaks="runner and worker wait for each other for ever",
  rs=NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''i=0
while [ $i -lt 3000 ]; do echo 0123456789012345678901234567890123456789012345678901234567890123456789; i=$((i+1)); done
echo '{"nodeid":"b::t","outcome":"passed","duration_ms":1.0,"error":null}' > "$out"'''
  + '''"#);
    check(native(python, &names(3), 2) == Some(0), "the run ends and passes");
}
'''),
 dict(id="c27-batches", property="C27", edits={N: [(
  '''        handles.push(handle);
    }

    let mut worker_errors = Vec::new();
''',
  '''        handles.push(handle);
        // Not too many interpreters at a time
        while handles.len() >= 32 && handles.iter().all(|h| !h.is_finished()) {
            thread::sleep(std::time::Duration::from_millis(10));
        }
    }

    let mut worker_errors = Vec::new();
''')]},
  needs="32 or more native workers whose tests wait for each other", breaks="later workers are not started before an earlier one ends",
  rs=NATIVE + '''
fn main() {
    let python = script("fake", r#"''' + BODY + '''d=$(dirname "$1")
n=$(basename "$1")
echo > "$d/here-$n"
i=0
while [ $(ls "$d" | grep -c "^here-") -lt $(cat "$d/count") ]; do
  sleep 0.1
  i=$((i+1))
  [ $i -gt 100 ] && exit 5
done
echo '{"nodeid":"b::t","outcome":"passed","duration_ms":1.0,"error":null}' > "$out"'''
  + '''"#);
    for n in [2, 36] {
        for f in std::fs::read_dir(".").unwrap() {
            let f = f.unwrap().path();
            if f.file_name().unwrap().to_str().unwrap().starts_with("here-") {
                std::fs::remove_file(f).unwrap();
            }
        }
        std::fs::write("count", n.to_string()).unwrap();
        check(native(python.clone(), &names(n), n) == Some(0), &format!("{n} workers run at once"));
    }
}
'''),
]
