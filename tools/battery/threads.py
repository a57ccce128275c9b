N = "src/native_runner.rs"
W = "src/worker.rs"
X = "src/pytest_executor.rs"
VARIANTS = []
ok = set()
B6, B7 = {"C26"}, {"C27"}


def v(name, want, *edits, f=N):
    fs = {}
    for e in edits:
        if len(e) == 3:
            fs.setdefault(e[0], []).append(e[1:])
        else:
            fs.setdefault(f, []).append(e)
    VARIANTS.append(("th-" + name, fs, set(want)))


OUT = '''    let output_files: Vec<PathBuf> = (0..shards.len())
        .map(|i| temp_dir.path().join(format!("worker-{}.jsonl", i)))
        .collect();
'''
DIR = '''    let temp_dir = match TempDir::with_prefix("rtest-") {
        Ok(dir) => dir,
        Err(e) => {
            eprintln!("Failed to create temp directory: {}", e);
            return 1;
        }
    };
'''
SPAWN = '''    for (i, (shard, output_file)) in shards.into_iter().zip(output_files.iter()).enumerate() {
        let python = config.python_executable.clone();
        let root = config.root_path.clone();
        let output_file = output_file.clone();
'''
JOIN = '''    for (i, handle) in handles.into_iter().enumerate() {
        match handle.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
        }
    }
'''
READ = '''    for output_file in &output_files {
        match parse_results_file(output_file) {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
'''
PUSH = "        handles.push(handle);\n"
RUN = '''    let output = cmd
        .output()
        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
'''
PIPES = '''        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
'''

# ---- refactorings
v("for-names", ok, (OUT, '''    let mut output_files = Vec::with_capacity(shards.len());
    for i in 0..shards.len() {
        let mut path = temp_dir.path().to_path_buf();
        path.push(format!("worker-{i}.jsonl"));
        output_files.push(path);
    }
'''))
v("name-fn", ok, ('temp_dir.path().join(format!("worker-{}.jsonl", i))', 'result_file(temp_dir.path(), i)'), ("pub fn execute_native(", '''/// The result file of a worker
fn result_file(dir: &Path, worker: usize) -> PathBuf {
    dir.join(format!("worker-{worker:04}.jsonl"))
}

pub fn execute_native('''))
v("enumerate", ok, ("(0..shards.len())\n        .map(|i|", "shards\n        .iter()\n        .enumerate()\n        .map(|(i, _)|"))
v("own-name", ok, (OUT, "    let mut output_files: Vec<PathBuf> = Vec::new();\n"), (SPAWN, '''    for (i, shard) in shards.into_iter().enumerate() {
        let output_file = temp_dir.path().join(format!("worker-{}.jsonl", i));
        output_files.push(output_file.clone());
        let python = config.python_executable.clone();
        let root = config.root_path.clone();
'''))
v("one-based", ok, ('format!("worker-{}.jsonl", i)', 'format!("worker-{}.jsonl", i + 1)'))
v("renamed", ok, ('format!("worker-{}.jsonl", i)', 'format!("results_{}.jsonl", i)'))
v("prefix", ok, ('TempDir::with_prefix("rtest-")', 'TempDir::new()'))
v("letelse", ok, (DIR, '''    let Ok(temp_dir) = TempDir::with_prefix("rtest-") else {
        eprintln!("Failed to create temp directory");
        return 1;
    };
'''))
v("drop-last", ok, ("    let aggregated = aggregate_results(all_results);\n", "    drop(temp_dir);\n    let aggregated = aggregate_results(all_results);\n"))
v("close-last", ok, ("    let aggregated = aggregate_results(all_results);\n", "    let _ = temp_dir.close();\n    let aggregated = aggregate_results(all_results);\n"))
v("into-iter", ok, ("for output_file in &output_files {\n        match parse_results_file(output_file)", "for output_file in output_files {\n        match parse_results_file(&output_file)"))
v("index-read", ok, (READ, '''    for i in 0..output_files.len() {
        match parse_results_file(&output_files[i]) {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
'''))
v("index-spawn", ok, (SPAWN, '''    for (i, shard) in shards.into_iter().enumerate() {
        let python = config.python_executable.clone();
        let root = config.root_path.clone();
        let output_file = output_files[i].clone();
'''))
v("pair", ok, (SPAWN, '''    let jobs: Vec<(Vec<PathBuf>, PathBuf)> = shards.into_iter().zip(output_files.iter().cloned()).collect();
    for (i, (shard, output_file)) in jobs.into_iter().enumerate() {
        let python = config.python_executable.clone();
        let root = config.root_path.clone();
'''))
v("map-spawn", ok, ("    let mut handles = Vec::new();\n", ""), ("    for (i, (shard, output_file)) in shards.into_iter().zip(output_files.iter()).enumerate() {\n", "    let handles: Vec<_> = shards.into_iter().zip(output_files.iter()).enumerate().map(|(i, (shard, output_file))| {\n"),
  ("        let handle = thread::spawn(move || {", "        thread::spawn(move || {"), ("        });\n        handles.push(handle);\n    }\n", "        })\n    }).collect();\n"))
v("join-read", ok, (JOIN + '''
    // A missing or unreadable results file means lost results: it must fail the run
    let mut all_results = Vec::new();
''' + READ, '''    let mut all_results = Vec::new();
    for (i, (handle, output_file)) in handles.into_iter().zip(&output_files).enumerate() {
        match handle.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
        }
        match parse_results_file(output_file) {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
'''))
v("wait-output", ok, (RUN, '''    let child = cmd
        .spawn()
        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
    let output = child
        .wait_with_output()
        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
'''))
v("w-wait-output", ok, ("match cmd.output() {", "match cmd.spawn().and_then(|child| child.wait_with_output()) {"), f=W)
v("w-join-collect", ok, ("        for worker in self.workers {\n            match worker.handle.join() {", "        let done: Vec<_> = self.workers.into_iter().map(|w| (w.id, w.handle.join())).collect();\n        for (id, result) in done {\n            match result {"),
  ("worker_id: worker.id,", "worker_id: id,"), f=W)

# ---- C26 bugs
v("fixed", B6, ('format!("worker-{}.jsonl", i)', '"worker.jsonl"'))
v("mod", B6, ('format!("worker-{}.jsonl", i)', 'format!("worker-{}.jsonl", i % 16)'))
v("half", B6, ('format!("worker-{}.jsonl", i)', 'format!("worker-{}.jsonl", i / 2)'))
v("min", B6, ('format!("worker-{}.jsonl", i)', 'format!("worker-{}.jsonl", i.min(99))'))
v("count", B6, ('format!("worker-{}.jsonl", i)', 'format!("worker-{}.jsonl", shards.len())'))
v("pid", B6, ('format!("worker-{}.jsonl", i)', 'format!("worker-{}.jsonl", std::process::id())'))
v("shared-dir", B6, ("temp_dir.path().join(format!", "std::env::temp_dir().join(format!"))
v("root-dir", B6, ("temp_dir.path().join(format!", "config.root_path.join(format!"))
v("first", B6, ("        let output_file = output_file.clone();\n", "        let output_file = output_files[0].clone();\n"), ("(shard, output_file)", "(shard, _output_file)"))
v("wrap", B6, ("        let output_file = output_file.clone();\n", "        let output_file = output_files[i % num_workers.min(64)].clone();\n"), ("(shard, output_file)", "(shard, _output_file)"))
v("keep", B6, ("    let shards = shard_files", "    let kept = temp_dir.into_path();\n    let shards = shard_files"), ("temp_dir.path().join(format!", "kept.join(format!"))
v("forget", B6, ("    let aggregated = aggregate_results(all_results);\n", "    std::mem::forget(temp_dir);\n    let aggregated = aggregate_results(all_results);\n"))
v("drop-early", B6, ("    let mut worker_errors = Vec::new();\n", "    drop(temp_dir);\n    let mut worker_errors = Vec::new();\n"))
v("drop-read", B6, ("    let mut all_results = Vec::new();\n    for output_file", "    drop(temp_dir);\n    let mut all_results = Vec::new();\n    for output_file"))
v("scope", B6, (OUT, "    let output_files = output_paths(temp_dir, shards.len());\n"), ("pub fn execute_native(", '''fn output_paths(dir: TempDir, count: usize) -> Vec<PathBuf> {
    (0..count)
        .map(|i| dir.path().join(format!("worker-{}.jsonl", i)))
        .collect()
}

pub fn execute_native('''))
v("match-path", B6, (DIR, '''    let temp_dir = match TempDir::with_prefix("rtest-").map(|dir| dir.path().to_path_buf()) {
        Ok(dir) => dir,
        Err(e) => {
            eprintln!("Failed to create temp directory: {}", e);
            return 1;
        }
    };
'''), ("temp_dir.path().join(format!", "temp_dir.join(format!"))
v("exit", B6, ("    if aggregated.failed > 0 || aggregated.error > 0 || !worker_errors.is_empty() {\n        1\n", "    if aggregated.failed > 0 || aggregated.error > 0 || !worker_errors.is_empty() {\n        std::process::exit(1)\n"))
v("read-other", B6, ("for output_file in &output_files {\n        match parse_results_file(output_file)", "for i in 0..output_files.len() {\n        match parse_results_file(&temp_dir.path().join(format!(\"worker_{}.jsonl\", i)))"))
v("read-skip", B6, ("for output_file in &output_files {\n        match", "for output_file in output_files.iter().skip(1) {\n        match"))

# ---- C27 bugs
v("wait", B7, (RUN, '''    let mut child = cmd
        .spawn()
        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
    child.wait().map_err(|e| format!("Worker {}: {}", worker_id, e))?;
    let output = child
        .wait_with_output()
        .map_err(|e| format!("Worker {} failed: {}", worker_id, e))?;
'''))
v("w-wait", B7, ("match cmd.output() {", "match cmd.spawn().and_then(|mut child| { child.wait()?; child.wait_with_output() }) {"), f=W)
v("w-read-one", B7, ("match cmd.output() {", '''let ran = cmd.spawn().and_then(|mut child| {
                let mut stdout = Vec::new();
                if let Some(mut pipe) = child.stdout.take() {
                    std::io::Read::read_to_end(&mut pipe, &mut stdout)?;
                }
                let mut stderr = Vec::new();
                if let Some(mut pipe) = child.stderr.take() {
                    std::io::Read::read_to_end(&mut pipe, &mut stderr)?;
                }
                let status = child.wait()?;
                Ok(std::process::Output { status, stdout, stderr })
            });
            match ran {'''), f=W)
v("serial", B7, (PUSH, "        handles.push(handle.join());\n"), ("match handle.join() {", "match handle {"))
v("cap", B7, (PUSH, '''        handles.push(handle);
        if handles.len() >= 32 {
            let first = handles.remove(0);
            let _ = first.join();
        }
'''))
v("w-serial", B7, ('''        self.workers.push(WorkerHandle {
            id: worker_id,
            handle,
        });
''', '''        let result = handle.join();
        let handle = thread::spawn(move || result.unwrap());
        self.workers.push(WorkerHandle {
            id: worker_id,
            handle,
        });
'''), f=W)
v("lock", B7, (RUN, '''    static RUNNING: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _running = RUNNING.lock();
    let output = cmd
        .output()
        .map_err(|e| format!("Worker {} failed to start: {}", worker_id, e))?;
'''))
v("lock-ok", ok, (RUN, RUN + '''    static PRINTING: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _printing = PRINTING.lock();
'''))
v("channel", B7, ("    let mut handles = Vec::new();\n", "    let mut handles = Vec::new();\n    let (tx, rx) = std::sync::mpsc::channel();\n"),
  ("        let handle = thread::spawn(move || {\n            run_worker(", "        let tx = tx.clone();\n        let handle = thread::spawn(move || {\n            let _ = tx.send(i);\n            run_worker("),
  ("    let mut worker_errors = Vec::new();\n", "    for i in rx {\n        log::debug!(\"worker {i} runs\");\n    }\n    let mut worker_errors = Vec::new();\n"))
v("x-piped-status", B7, ("run_cmd.status()", "run_cmd.stderr(std::process::Stdio::piped()).status()"), f=X)
v("x-output", {"C03"}, ("run_cmd.status()", "run_cmd.output().map(|o| o.status)"), f=X)

v("x-output-shown", set(), ("run_cmd.status()", "run_cmd.output().map(|o| { print!(\"{}\", String::from_utf8_lossy(&o.stdout)); eprint!(\"{}\", String::from_utf8_lossy(&o.stderr)); o.status })"), f=X)
v("x-inherit", set(), ("run_cmd.status()", "run_cmd.stdout(std::process::Stdio::inherit()).status()"), f=X)
v("x-null", {"C03"}, ("run_cmd.status()", "run_cmd.stderr(std::process::Stdio::null()).status()"), f=X)
