"""Rewritings that change no behaviour, written without looking at the checks."""
M, W, RS, MAIN = "python/rtest/mark.py", "python/rtest/worker/runner.py", "python/rtest/raises.py", "python/rtest/worker/__main__.py"
N, SC, WK, R, X, SP, U, CFG, CLI = ("src/native_runner.rs", "src/scheduler.rs", "src/worker.rs", "src/runner.rs", "src/pytest_executor.rs", "src/subproject.rs",
                                    "src/utils.rs", "src/config.rs", "src/cli.rs")
VARIANTS = []


def v(name, f, *reps, want=None):
    VARIANTS.append(("rx-" + name, {f: list(reps)}, {want} if want else set()))


# ---- native runner ----
SHARD = '''    let mut shards: Vec<Vec<PathBuf>> = (0..actual_workers).map(|_| Vec::new()).collect();

    for (i, file) in files.into_iter().enumerate() {
        shards[i % actual_workers].push(file);
    }

    shards.into_iter().filter(|s| !s.is_empty()).collect()
'''
v("shard-grow", N, (SHARD, '''    let mut shards: Vec<Vec<PathBuf>> = Vec::with_capacity(actual_workers);
    for (i, file) in files.into_iter().enumerate() {
        if i < actual_workers {
            shards.push(vec![file]);
        } else {
            shards[i % actual_workers].push(file);
        }
    }
    shards
'''))
v("shard-len", N, (SHARD, '''    let mut shards: Vec<Vec<PathBuf>> = Vec::new();
    let mut next = 0;
    for file in files {
        if shards.len() < actual_workers {
            shards.push(Vec::new());
        }
        shards[next].push(file);
        next = (next + 1) % actual_workers;
    }
    shards
'''))
v("shard-retain", N, (SHARD, '''    let mut shards = vec![Vec::new(); actual_workers];
    for (i, file) in files.into_iter().enumerate() {
        shards[i % actual_workers].push(file);
    }
    shards.retain(|shard: &Vec<PathBuf>| !shard.is_empty());
    shards
'''))
v("shard-step", N, (SHARD, '''    (0..actual_workers)
        .map(|first| files.iter().skip(first).step_by(actual_workers).cloned().collect::<Vec<_>>())
        .collect()
'''))
v("shard-fold", N, (SHARD, '''    files.into_iter().enumerate().fold(vec![Vec::new(); actual_workers], |mut shards, (i, file)| {
        shards[i % actual_workers].push(file);
        shards
    })
'''))
AG = '''            match result.outcome.as_str() {
                "passed" => aggregated.passed += 1,
                "failed" => {
                    aggregated.failed += 1;
                    aggregated.failures.push(result);
                }
                "error" => {
                    aggregated.error += 1;
                    aggregated.errors.push(result);
                }
                "skipped" => aggregated.skipped += 1,
                _ => {
                    aggregated.error += 1;
                    aggregated.errors.push(result);
                }
            }
'''
v("agg-ifs", N, (AG, '''            let outcome = result.outcome.as_str();
            if outcome == "passed" {
                aggregated.passed += 1;
            } else if outcome == "skipped" {
                aggregated.skipped += 1;
            } else if outcome == "failed" {
                aggregated.failed += 1;
                aggregated.failures.push(result);
            } else {
                aggregated.error += 1;
                aggregated.errors.push(result);
            }
'''))
v("agg-continue", N, (AG, '''            match result.outcome.as_str() {
                "passed" => {
                    aggregated.passed += 1;
                    continue;
                }
                "skipped" => {
                    aggregated.skipped += 1;
                    continue;
                }
                _ => {}
            }
            let is_failure = result.outcome == "failed";
            let (count, list) = if is_failure {
                (&mut aggregated.failed, &mut aggregated.failures)
            } else {
                (&mut aggregated.error, &mut aggregated.errors)
            };
            *count += 1;
            list.push(result);
'''))
v("agg-method", N, (AG, "            aggregated.add(result);\n"), ("fn aggregate_results(", '''impl AggregatedResults {
    fn add(&mut self, result: TestResult) {
        match result.outcome.as_str() {
            "passed" => self.passed += 1,
            "skipped" => self.skipped += 1,
            "failed" => {
                self.failed += 1;
                self.failures.push(result);
            }
            _ => {
                self.error += 1;
                self.errors.push(result);
            }
        }
    }
}

fn aggregate_results('''))
v("agg-flatten", N, ('''    for results in all_results {
        for result in results {
            aggregated.total += 1;
            aggregated.total_duration_ms += result.duration_ms;

''' + AG + '''        }
    }
''', '''    for result in all_results.into_iter().flatten() {
        aggregated.total += 1;
        aggregated.total_duration_ms += result.duration_ms;
''' + AG.replace("\n    ", "\n").replace("            match", "        match", 1) + "    }\n"))
PS = '''    let mut parts = Vec::new();
    if results.passed > 0 {
        parts.push(format!("{} passed", results.passed));
    }
    if results.failed > 0 {
        parts.push(format!("{} failed", results.failed));
    }
    if results.error > 0 {
        parts.push(format!("{} error", results.error));
    }
    if results.skipped > 0 {
        parts.push(format!("{} skipped", results.skipped));
    }
'''
v("parts-array", N, (PS, '''    let parts: Vec<String> = [
        (results.passed, "passed"),
        (results.failed, "failed"),
        (results.error, "error"),
        (results.skipped, "skipped"),
    ]
    .into_iter()
    .filter(|(count, _)| *count > 0)
    .map(|(count, label)| format!("{} {}", count, label))
    .collect();
'''))
v("parts-helper", N, (PS, '''    let mut parts = Vec::new();
    push_part(&mut parts, results.passed, "passed");
    push_part(&mut parts, results.failed, "failed");
    push_part(&mut parts, results.error, "error");
    push_part(&mut parts, results.skipped, "skipped");
'''), ("fn print_summary(", '''fn push_part(parts: &mut Vec<String>, count: usize, label: &str) {
    if count > 0 {
        parts.push(format!("{count} {label}"));
    }
}

fn print_summary('''))
v("status-match", N, ('''    let status = if results.failed > 0 || results.error > 0 {
        "FAILED"
    } else {
        "PASSED"
    };
''', '''    let status = match (results.failed, results.error) {
        (0, 0) => "PASSED",
        _ => "FAILED",
    };
'''))
v("status-helper", N, ("    let status = if results.failed > 0 || results.error > 0 {\n", "    let status = if has_problems(results) {\n"),
  ("fn print_summary(", "fn has_problems(results: &AggregatedResults) -> bool {\n    results.failed + results.error > 0\n}\n\nfn print_summary("))
PATS = '''    if !python_classes.is_empty() {
        cmd.arg("--python-classes");
        for pattern in python_classes {
            cmd.arg(pattern);
        }
    }

    if !python_functions.is_empty() {
        cmd.arg("--python-functions");
        for pattern in python_functions {
            cmd.arg(pattern);
        }
    }
'''
v("pats-helper", N, (PATS, '''    add_patterns(&mut cmd, "--python-classes", python_classes);
    add_patterns(&mut cmd, "--python-functions", python_functions);
'''), ("fn run_worker(", '''fn add_patterns(cmd: &mut Command, flag: &str, patterns: &[String]) {
    if patterns.is_empty() {
        return;
    }
    cmd.arg(flag).args(patterns);
}

fn run_worker('''))
v("pats-loop", N, (PATS, '''    for (flag, patterns) in [
        ("--python-classes", python_classes),
        ("--python-functions", python_functions),
    ] {
        if !patterns.is_empty() {
            cmd.arg(flag);
            cmd.args(patterns);
        }
    }
'''))
v("files-args", N, ('''    cmd.arg("--");
    for file in files {
        cmd.arg(file);
    }
''', '''    cmd.arg("--").args(files);
'''))
EXIT = '''    // Check worker exit code - non-zero indicates test failures or errors
    if !output.status.success() {
        let exit_code = output.status.code().unwrap_or(-1);
        // Exit code 1 is expected when tests fail, only report unexpected codes
        if exit_code != 1 {
'''
v("exit-guard", N, (EXIT, '''    let exit_code = output.status.code().unwrap_or(-1);
    {
        if exit_code != 0 && exit_code != 1 {
'''))
v("exit-match", N, (EXIT, '''    match output.status.code().unwrap_or(-1) {
        0 | 1 => {}
        exit_code => {
'''))
v("test-file-any", N, ('''    for pattern in patterns {
        if glob_match(pattern, file_name) {
            return true;
        }
    }

    false
}
''', '''    patterns.iter().any(|pattern| glob_match(pattern, file_name))
}
'''))
v("test-file-let", N, ('''    let file_name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");

    if path.extension()''', '''    let Some(file_name) = path.file_name().map(|n| n.to_str().unwrap_or("")) else {
        return false;
    };

    if path.extension()'''))
WALK = '''        .filter_map(|e| e.ok())
        .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
        .map(|e| e.into_path())
        .collect()
'''
v("walk-flatten", N, (WALK, '''        .flatten()
        .filter(|e| e.file_type().is_file())
        .map(|e| e.into_path())
        .filter(|path| is_test_file(path, patterns))
        .collect()
'''))
v("walk-then", N, (WALK, '''        .filter_map(|e| {
            let entry = e.ok()?;
            (entry.file_type().is_file() && is_test_file(entry.path(), patterns)).then(|| entry.into_path())
        })
        .collect()
'''))
CT = '''                if full_path.is_file() && is_test_file(&full_path, patterns) {
                    vec![full_path]
                } else if full_path.is_dir() {
                    collect_test_files_in_dir(&full_path, patterns)
                } else {
                    vec![]
                }
'''
v("collect-dir-first", N, (CT, '''                if full_path.is_dir() {
                    return collect_test_files_in_dir(&full_path, patterns);
                }
                let wanted = full_path.is_file() && is_test_file(&full_path, patterns);
                if wanted { vec![full_path] } else { Vec::new() }
'''))
v("collect-join", N, ('''                let full_path = if path.is_absolute() {
                    path.to_path_buf()
                } else {
                    root.join(path)
                };
''', '''                // join() keeps an absolute path
                let full_path = root.join(path);
'''))
# ---- scheduler ----
RR = '''        let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];

        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
'''
v("load-common", SC, (RR, "        round_robin(tests, num_workers)\n"), ('''        let mut workers: Vec<Vec<String>> = (0..num_workers).map(|_| Vec::new()).collect();

        // Round-robin distribution - this gives better work-stealing characteristics
        // because it interleaves tests across workers, making it more likely that
        // when one worker finishes early, there are still tests available for stealing
        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
''', "        round_robin(tests, num_workers)\n"), ("pub struct LoadScheduler;", '''fn round_robin(tests: Vec<String>, num_workers: usize) -> Vec<Vec<String>> {
    let mut batches = vec![Vec::new(); num_workers];
    let mut turn = (0..num_workers).cycle();
    for test in tests {
        if let Some(worker) = turn.next() {
            batches[worker].push(test);
        }
    }
    batches.retain(|batch: &Vec<String>| !batch.is_empty());
    batches
}

pub struct LoadScheduler;'''))
v("load-grow", SC, (RR, '''        let mut workers: Vec<Vec<String>> = Vec::with_capacity(num_workers);
        for (i, test) in tests.into_iter().enumerate() {
            match workers.get_mut(i % num_workers) {
                Some(worker) => worker.push(test),
                None => workers.push(vec![test]),
            }
        }
        workers
'''))
v("load-zip", SC, (RR, '''        let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];
        for (test, worker) in tests.into_iter().zip((0..num_workers).cycle()) {
            workers[worker].push(test);
        }
        workers.into_iter().filter(|w| !w.is_empty()).collect()
'''))
GR = '''        let key = key_extractor(&test);
        groups.entry(key).or_default().push(test);
'''
v("group-get", SC, (GR, '''        let key = key_extractor(&test);
        match groups.get_mut(&key) {
            Some(group) => group.push(test),
            None => {
                groups.insert(key, vec![test]);
            }
        }
'''))
v("group-with", SC, (GR, '''        groups
            .entry(key_extractor(&test))
            .or_insert_with(Vec::new)
            .push(test);
'''))
v("file-once", SC, ('''    test_path
        .split("::")
        .next()
        .unwrap_or(test_path)
        .to_string()
''', '''    match test_path.split_once("::") {
        Some((file, _)) => file.to_string(),
        None => test_path.to_string(),
    }
'''))
v("file-find", SC, ('''    test_path
        .split("::")
        .next()
        .unwrap_or(test_path)
        .to_string()
''', '''    let end = test_path.find("::").unwrap_or(test_path.len());
    test_path[..end].to_string()
'''))
