N = "src/native_runner.rs"
JOIN = '''    for (i, handle) in handles.into_iter().enumerate() {
        match handle.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
        }
    }
'''
READ = '''    for output_file in &output_files {
        match parse_results_file(output_file) {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
'''
FIN = '''    if aggregated.failed > 0 || aggregated.error > 0 || !worker_errors.is_empty() {
        1
    } else {
        0
    }
'''
PARSE = '''    for (line_num, line) in reader.lines().enumerate() {
        let line = line.map_err(|e| format!("Failed to read line {}: {}", line_num + 1, e))?;

        if line.trim().is_empty() {
            continue;
        }

        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;

        results.push(result);
    }

    Ok(results)
'''
MATCH = '''            match result.outcome.as_str() {
                "passed" => aggregated.passed += 1,
                "failed" => {
                    aggregated.failed += 1;
                    aggregated.failures.push(result);
                }
                "error" => {
                    aggregated.error += 1;
                    aggregated.errors.push(result);
                }
                "skipped" => aggregated.skipped += 1,
                _ => {
                    aggregated.error += 1;
                    aggregated.errors.push(result);
                }
            }
'''
PARTS = """    let mut parts = Vec::new();
    if results.passed > 0 {
        parts.push(format!("{} passed", results.passed));
    }
    if results.failed > 0 {
        parts.push(format!("{} failed", results.failed));
    }
    if results.error > 0 {
        parts.push(format!("{} error", results.error));
    }
    if results.skipped > 0 {
        parts.push(format!("{} skipped", results.skipped));
    }
"""
STATUS = """    let status = if results.failed > 0 || results.error > 0 {
        "FAILED"
    } else {
        "PASSED"
    };
"""
LIST = """    for result in results {
        println!("  {}", result.nodeid);
        if let Some(error) = &result.error {
            print_error_info(error);
        }
    }
"""
SHARD = '''    let actual_workers = num_workers.min(files.len());
    let mut shards: Vec<Vec<PathBuf>> = (0..actual_workers).map(|_| Vec::new()).collect();

    for (i, file) in files.into_iter().enumerate() {
        shards[i % actual_workers].push(file);
    }

    shards.into_iter().filter(|s| !s.is_empty()).collect()
'''
SPAWN = '''    for (i, (shard, output_file)) in shards.into_iter().zip(output_files.iter()).enumerate() {
        let python = config.python_executable.clone();
        let root = config.root_path.clone();
        let output_file = output_file.clone();
        let python_classes = config.python_classes.clone();
        let python_functions = config.python_functions.clone();
        let handle = thread::spawn(move || {
            run_worker(
                i,
                &python,
                &root,
                &output_file,
                &shard,
                &python_classes,
                &python_functions,
            )
        });
        handles.push(handle);
    }
'''
FILES = '''    cmd.arg("--");
    for file in files {
        cmd.arg(file);
    }
'''
CODE = '''    if !output.status.success() {
        let exit_code = output.status.code().unwrap_or(-1);
        // Exit code 1 is expected when tests fail, only report unexpected codes
        if exit_code != 1 {
            // Print stderr only for unexpected failures
            if !output.stderr.is_empty() {
                let stderr = String::from_utf8_lossy(&output.stderr);
                if !stderr.trim().is_empty() {
                    eprintln!("Worker {} stderr:\\n{}", worker_id, stderr);
                }
            }
            return Err(format!(
                "Worker {} crashed with exit code {} (expected 0 or 1)",
                worker_id, exit_code
            ));
        }
    }
'''
RESERVE = SHARD.replace("(0..actual_workers).map(|_| Vec::new()).collect()", "vec![Vec::new(); actual_workers]")
VARIANTS = [
    # refactorings
    ("nat-rf-join-helper", {N: [(JOIN, "    for (i, handle) in handles.into_iter().enumerate() {\n        if let Some(e) = join_worker(i, handle) {\n            worker_errors.push(e);\n        }\n    }\n"), ("pub fn execute_native(", '''fn join_worker(i: usize, handle: thread::JoinHandle<Result<(), String>>) -> Option<String> {
    match handle.join() {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(format!("Worker {}: {}", i, e)),
        Err(_) => Some(format!("Worker {} panicked", i)),
    }
}

pub fn execute_native(''')]}, []),
    ("nat-rf-join-filter-map", {N: [("    let mut worker_errors = Vec::new();\n" + JOIN, '''    let mut worker_errors: Vec<String> = handles.into_iter().enumerate().filter_map(|(i, handle)| match handle.join() {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(format!("Worker {}: {}", i, e)),
        Err(_) => Some(format!("Worker {} panicked", i)),
    }).collect();
''')]}, []),
    ("nat-rf-read-map", {N: [(READ, '''    for parsed in output_files.iter().map(|p| parse_results_file(p)) {
        match parsed {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
''')]}, []),
    ("nat-rf-parse-match", {N: [(PARSE, '''    let mut line_num = 0;
    for line in reader.lines() {
        line_num += 1;
        let line = match line {
            Ok(l) => l,
            Err(e) => return Err(format!("Failed to read line {}: {}", line_num, e)),
        };
        if !line.trim().is_empty() {
            match serde_json::from_str::<TestResult>(&line) {
                Ok(r) => results.push(r),
                Err(e) => return Err(format!("Failed to parse JSON on line {}: {}", line_num, e)),
            }
        }
    }
    Ok(results)
''')]}, []),
    ("nat-rf-parse-read-string", {N: [('''    let file =
        File::open(path).map_err(|e| format!("Failed to open results file {:?}: {}", path, e))?;

    let reader = BufReader::new(file);
    let mut results = Vec::new();

''' + PARSE, '''    let text = std::fs::read_to_string(path).map_err(|e| format!("Failed to open results file {:?}: {}", path, e))?;
    let mut results = Vec::new();
    for (line_num, line) in text.lines().enumerate() {
        if line.trim().is_empty() {
            continue;
        }
        let result: TestResult = serde_json::from_str(line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;
        results.push(result);
    }
    Ok(results)
'''), ("use std::fs::File;\nuse std::io::{BufRead, BufReader};\n", "")]}, []),
    ("nat-rf-parse-collect", {N: [("    let mut results = Vec::new();\n\n" + PARSE, '''    reader
        .lines()
        .enumerate()
        .map(|(n, line)| line.map(|l| (n, l)).map_err(|e| format!("Failed to read line {}: {}", n + 1, e)))
        .filter(|r| !matches!(r, Ok((_, l)) if l.trim().is_empty()))
        .map(|r| r.and_then(|(n, l)| serde_json::from_str::<TestResult>(&l).map_err(|e| format!("Failed to parse JSON on line {}: {}", n + 1, e))))
        .collect()
''')]}, []),
    ("nat-rf-fin", {N: [(FIN, "    let ok = aggregated.failed == 0 && aggregated.error == 0 && worker_errors.is_empty();\n    i32::from(!ok)\n")]}, []),
    ("nat-rf-fin-sum", {N: [(FIN, "    if aggregated.failed + aggregated.error + worker_errors.len() > 0 {\n        1\n    } else {\n        0\n    }\n")]}, []),
    ("nat-rf-fin-early", {N: [(FIN, "    if !worker_errors.is_empty() {\n        return 1;\n    }\n    if aggregated.failed > 0 {\n        return 1;\n    }\n    if aggregated.error != 0 { 1 } else { 0 }\n")]}, []),
    ("nat-rf-match-if", {N: [(MATCH, '''            if result.outcome == "passed" {
                aggregated.passed += 1;
            } else if result.outcome == "skipped" {
                aggregated.skipped += 1;
            } else if result.outcome == "failed" {
                aggregated.failed += 1;
                aggregated.failures.push(result);
            } else if result.outcome == "error" {
                aggregated.error += 1;
                aggregated.errors.push(result);
            } else {
                aggregated.error += 1;
                aggregated.errors.push(result);
            }
''')]}, []),
    ("nat-rf-agg-flatten", {N: [("    for results in all_results {\n        for result in results {\n", "    for result in all_results.into_iter().flatten() {\n        {\n")]}, []),
    ("nat-rf-agg-counts", {N: [(MATCH, '''            match result.outcome.as_str() {
                "passed" => aggregated.passed += 1,
                "skipped" => aggregated.skipped += 1,
                "failed" => aggregated.failures.push(result),
                "error" => {
                    aggregated.errors.push(result);
                    aggregated.error += 1;
                }
                _ => {
                    aggregated.errors.push(result);
                    aggregated.error += 1;
                }
            }
'''), ("    }\n\n    aggregated\n}", "    }\n\n    aggregated.failed = aggregated.failures.len();\n    aggregated\n}")]}, []),
    ("nat-rf-shard-vec", {N: [(SHARD, RESERVE)]}, []),
    ("nat-rf-shard-push", {N: [(SHARD, '''    let actual_workers = std::cmp::min(num_workers, files.len());
    let mut shards = vec![vec![]; actual_workers];
    let mut next = 0;
    for file in files {
        shards[next].push(file);
        next = (next + 1) % actual_workers;
    }
    shards.retain(|s: &Vec<PathBuf>| !s.is_empty());
    shards
''')]}, []),
    ("nat-rf-spawn-helper", {N: [(SPAWN, SPAWN.replace("        let handle = thread::spawn(move || {", "        let task = move || {").replace("        });\n        handles.push(handle);", "        };\n        handles.push(thread::spawn(task));"))]}, []),
    ("nat-rf-spawn-index", {N: [(SPAWN, SPAWN.replace("for (i, (shard, output_file)) in shards.into_iter().zip(output_files.iter()).enumerate() {", "for (i, shard) in shards.into_iter().enumerate() {\n        let output_file = &output_files[i];"))]}, []),
    ("nat-rf-spawn-map", {N: [("    let mut handles = Vec::new();\n" + SPAWN, '''    let handles: Vec<_> = shards.into_iter().zip(output_files.iter().cloned()).enumerate().map(|(i, (shard, output_file))| {
        let python = config.python_executable.clone();
        let root = config.root_path.clone();
        let python_classes = config.python_classes.clone();
        let python_functions = config.python_functions.clone();
        thread::spawn(move || run_worker(i, &python, &root, &output_file, &shard, &python_classes, &python_functions))
    }).collect();
''')]}, []),
    ("nat-rf-args", {N: [(FILES, '    cmd.arg("--").args(files);\n')]}, []),
    ("nat-rf-code-match", {N: [(CODE, '''    match output.status.code() {
        Some(0) | Some(1) => Ok(()),
        other => {
            let exit_code = other.unwrap_or(-1);
            let stderr = String::from_utf8_lossy(&output.stderr);
            if !stderr.trim().is_empty() {
                eprintln!("Worker {} stderr:\\n{}", worker_id, stderr);
            }
            Err(format!(
                "Worker {} crashed with exit code {} (expected 0 or 1)",
                worker_id, exit_code
            ))
        }
    }
}
#[allow(dead_code)]
fn unused() -> Result<(), String> {
''')]}, []),
    ("nat-rf-code-range", {N: [(CODE, CODE.replace("    if !output.status.success() {\n        let exit_code = output.status.code().unwrap_or(-1);", "    {\n        let exit_code = output.status.code().unwrap_or(-1);").replace("if exit_code != 1 {", "if !(0..=1).contains(&exit_code) {"))]}, []),
    # bugs
    ("nat-bug-panic-ignored", {N: [('            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),\n', '            Err(_) => eprintln!("Worker {} panicked", i),\n')]}, ["C09"]),
    ("nat-bug-err-ignored", {N: [('            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),\n', '            Ok(Err(e)) => eprintln!("Worker {}: {}", i, e),\n')]}, ["C09"]),
    ("nat-bug-missing-skip", {N: [(READ, READ.replace("        match parse", "        if !output_file.exists() {\n            continue;\n        }\n        match parse"))]}, ["C09"]),
    ("nat-bug-parse-warn", {N: [(READ, READ.replace("worker_errors.push(e)", 'eprintln!("Warning: {}", e)'))]}, ["C09"]),
    ("nat-bug-flatten-lines", {N: [(PARSE, PARSE.replace("reader.lines().enumerate()", "reader.lines().map_while(Result::ok).enumerate()").replace('        let line = line.map_err(|e| format!("Failed to read line {}: {}", line_num + 1, e))?;\n\n', ""))]}, ["C09"]),
    ("nat-bug-bad-line-skip", {N: [('''        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;

        results.push(result);
''', '''        match serde_json::from_str::<TestResult>(&line) {
            Ok(result) => results.push(result),
            Err(e) => eprintln!("Failed to parse JSON on line {}: {}", line_num + 1, e),
        }
''')]}, ["C09"]),
    ("nat-bug-bad-line-break", {N: [('''        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;
''', '''        let Ok(result) = serde_json::from_str::<TestResult>(&line) else { break };
''')]}, ["C09"]),
    ("nat-bug-signal", {N: [("output.status.code().unwrap_or(-1)", "output.status.code().unwrap_or(1)")]}, ["C09"]),
    ("nat-bug-code2", {N: [("if exit_code != 1 {", "if exit_code > 1 {")]}, ["C09"]),
    ("nat-bug-code-3", {N: [("if exit_code != 1 {", "if exit_code != 1 && exit_code != 5 {")]}, ["C09"]),
    ("nat-bug-only-if-stderr", {N: [(CODE, CODE.replace('''            return Err(format!(
                "Worker {} crashed with exit code {} (expected 0 or 1)",
                worker_id, exit_code
            ));
''', "").replace('''eprintln!("Worker {} stderr:\\n{}", worker_id, stderr);
''', '''return Err(format!("Worker {} stderr:\\n{}", worker_id, stderr));
'''))]}, ["C09"]),
    ("nat-bug-fin-failed-only", {N: [(FIN, FIN.replace(" || aggregated.error > 0", ""))]}, ["C09"]),
    ("nat-rf-fin-errors-list", {N: [(FIN, FIN.replace("aggregated.error > 0", "!aggregated.errors.is_empty()"))]}, []),
    ("nat-bug-fin-noerrs", {N: [(FIN, FIN.replace(" || !worker_errors.is_empty()", ""))]}, ["C09"]),
    ("nat-bug-fin-partial", {N: [(FIN, FIN.replace("!worker_errors.is_empty()", "(!worker_errors.is_empty() && aggregated.total == 0)"))]}, ["C09"]),
    ("nat-bug-unknown-passed", {N: [("                _ => {\n                    aggregated.error += 1;\n                    aggregated.errors.push(result);\n                }\n", "_ => aggregated.passed += 1,\n")]}, ["C09", "C10"]),
    ("nat-bug-unknown-ignored", {N: [("                _ => {\n                    aggregated.error += 1;\n                    aggregated.errors.push(result);\n                }\n", "_ => {}\n")]}, ["C09", "C10"]),
    ("nat-bug-case-insensitive", {N: [('                "error" => {', '                "error" if result.error.is_some() => {'), ("                _ => {\n                    aggregated.error += 1;\n                    aggregated.errors.push(result);\n                }\n", "_ => aggregated.skipped += 1,\n")]}, ["C09", "C10"]),
    ("nat-bug-zero-duration", {N: [("            aggregated.total += 1;\n", "            if result.duration_ms < 0.0 {\n                continue;\n            }\n            aggregated.total += 1;\n")]}, ["C09", "C10"]),
    ("nat-bug-only-first-file", {N: [("    let aggregated = aggregate_results(all_results);", "    all_results.truncate(num_workers.saturating_sub(1).max(1));\n    let aggregated = aggregate_results(all_results);")]}, ["C09", "C10"]),
    ("nat-bug-join-break", {N: [(JOIN, JOIN.replace('''            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
''', '''            Ok(Err(e)) => {
                worker_errors.push(format!("Worker {}: {}", i, e));
                break;
            }
'''))]}, []),
    ("nat-bug-clear", {N: [(READ, READ.replace("Ok(results) => all_results.push(results),", "Ok(results) => {\n                worker_errors.clear();\n                all_results.push(results)\n            }"))]}, ["C09"]),
    ("nat-bug-failed-dropped", {N: [("                    aggregated.failures.push(result);\n", "                    if result.error.is_some() {\n                        aggregated.failures.push(result);\n                    }\n")]}, ["C10"]),
    ("nat-bug-skipped-twice", {N: [('"skipped" => aggregated.skipped += 1,', '"skipped" => {\n                    aggregated.skipped += 1;\n                    aggregated.passed += 1;\n                }')]}, ["C10"]),
    ("nat-bug-status", {N: [("    let status = if results.failed > 0 || results.error > 0 {", "    let status = if results.failed > 0 {")]}, ["C10"]),
    ("nat-rf-status-list", {N: [("    let status = if results.failed > 0 || results.error > 0 {", "    let status = if results.failed > 0 || !results.errors.is_empty() {")]}, []),
    ("nat-bug-list-omitted", {N: [('    print_test_results("ERRORS", &results.errors);\n', '    if results.failed == 0 {\n        print_test_results("ERRORS", &results.errors);\n    }\n')]}, ["C10"]),
    ("nat-bug-list-dedup", {N: [("    for result in results {\n        println!(\"  {}\", result.nodeid);", "    for result in results {\n        if result.error.is_none() {\n            continue;\n        }\n        println!(\"  {}\", result.nodeid);")]}, ["C10"]),
    ("nat-bug-shard-chunks", {N: [(SHARD, "    let size = (files.len() / num_workers).max(1);\n    files.chunks(size).map(|c| c.to_vec()).collect()\n")]}, ["C08"]),
    ("nat-bug-shard-chunks-exact", {N: [(SHARD, "    let size = files.len().div_ceil(num_workers);\n    files.chunks_exact(size).map(|c| c.to_vec()).collect()\n")]}, ["C08"]),
    ("nat-bug-shard-noempty", {N: [(SHARD, SHARD.replace("let actual_workers = num_workers.min(files.len());", "let actual_workers = num_workers;").replace("    shards.into_iter().filter(|s| !s.is_empty()).collect()\n", "    shards\n"))]}, ["C08"]),
    ("nat-bug-zip-short", {N: [("let output_files: Vec<PathBuf> = (0..shards.len())", "let output_files: Vec<PathBuf> = (0..shards.len().min(8))")]}, ["C08"]),
    ("nat-bug-file-skip1", {N: [(FILES, FILES.replace("for file in files {", "for file in files.iter().skip(if files.len() > 50 { 1 } else { 0 }) {"))]}, ["C08"]),
    ("nat-bug-file-exists", {N: [(FILES, FILES.replace("        cmd.arg(file);", "        if file.exists() {\n            cmd.arg(file);\n        }"))]}, ["C08"]),
    ("nat-bug-same-file", {N: [("                &shard,\n", "                &shard[..1],\n")]}, ["C08"]),
    ("nat-bug-dedup", {N: [("    let shards = shard_files(test_files, num_workers);", "    let mut test_files = test_files;\n    test_files.dedup_by(|a, b| a.file_name() == b.file_name());\n    let shards = shard_files(test_files, num_workers);")]}, ["C08"]),
    ("nat-bug-shard-empty-worker", {N: [("    let mut handles = Vec::new();\n    for (i,", "    let shards: Vec<_> = shards.into_iter().skip_while(|s| s.len() == 1 && num_workers > 64).collect();\n    let mut handles = Vec::new();\n    for (i,")]}, ["C08"]),
    ("nat-rf-sum-array", {N: [(PARTS, """    let counts = [
        (results.passed, "passed"),
        (results.failed, "failed"),
        (results.error, "error"),
        (results.skipped, "skipped"),
    ];
    let parts: Vec<String> = counts
        .iter()
        .filter(|(n, _)| *n > 0)
        .map(|(n, label)| format!("{} {}", n, label))
        .collect();
""")]}, []),
    ("nat-rf-sum-closure", {N: [(PARTS, """    let mut parts: Vec<String> = Vec::new();
    let mut add = |n: usize, label: &str| {
        if n != 0 {
            parts.push(format!("{n} {label}"));
        }
    };
    add(results.passed, "passed");
    add(results.failed, "failed");
    add(results.error, "error");
    add(results.skipped, "skipped");
""")]}, []),
    ("nat-rf-status-ok", {N: [(STATUS, """    let ok = results.failed == 0 && results.error == 0;
    let status = if ok { "PASSED" } else { "FAILED" };
""")]}, []),
    ("nat-rf-status-match", {N: [(STATUS, """    let status = match (results.failed, results.error) {
        (0, 0) => "PASSED",
        _ => "FAILED",
    };
""")]}, []),
    ("nat-rf-status-sum", {N: [(STATUS, """    let status = if results.failed + results.error > 0 { "FAILED" } else { "PASSED" };
""")]}, []),
    ("nat-rf-status-lists", {N: [(STATUS, """    let status = if results.failures.is_empty() && results.errors.is_empty() { "PASSED" } else { "FAILED" };
""")]}, []),
    ("nat-rf-list-iter", {N: [(LIST, """    results.iter().for_each(|result| {
        println!("  {}", result.nodeid);
        if let Some(error) = result.error.as_ref() {
            print_error_info(error);
        }
    });
""")]}, []),
    ("nat-rf-list-noguard", {N: [("    if results.is_empty() {\n        return;\n    }\n    println!();\n    println!(\"{}:\", label);\n", "    if !results.is_empty() {\n        println!();\n        println!(\"{}:\", label);\n    }\n")]}, []),
    ("nat-rf-agg-helper", {N: [(MATCH, "            record(&mut aggregated, result);\n"), ("fn aggregate_results", "fn record(aggregated: &mut AggregatedResults, result: TestResult) {\n" + MATCH + "}\n\nfn aggregate_results")]}, []),
    ("nat-rf-agg-foreach", {N: [("    for results in all_results {\n        for result in results {\n", "    all_results.into_iter().flatten().for_each(|result| {\n        {\n"), ("            }\n        }\n    }\n\n    aggregated\n}", "            }\n        }\n    });\n\n    aggregated\n}")]}, []),
    ("nat-bug-sum-skip-hidden", {N: [("    if results.skipped > 0 {", "    if results.skipped > 0 && results.passed > 0 {")]}, ["C10"]),
    ("nat-bug-sum-swap", {N: [('format!("{} error", results.error)', 'format!("{} error", results.errors.len() + results.failures.len())')]}, ["C10"]),
    ("nat-bug-sum-one", {N: [("    if results.error > 0 {", "    if results.error > 1 {")]}, ["C10"]),
    ("nat-bug-list-cap", {N: [("    for result in results {\n        println!(\"  {}\", result.nodeid);", "    for result in results.iter().take(50) {\n        println!(\"  {}\", result.nodeid);")]}, ["C10"]),
    ("nat-bug-list-else", {N: [("        println!(\"  {}\", result.nodeid);\n        if let Some(error) = &result.error {\n            print_error_info(error);\n        }", "        if let Some(error) = &result.error {\n            println!(\"  {}\", result.nodeid);\n            print_error_info(error);\n        }")]}, ["C10"]),
    ("nat-bug-retain", {N: [("    let mut aggregated = AggregatedResults::default();\n\n    for results in all_results {", "    let mut aggregated = AggregatedResults::default();\n\n    for mut results in all_results {\n        results.dedup_by(|a, b| a.nodeid == b.nodeid);")]}, ["C09", "C10"]),
    ("nat-bug-parse-drop", {N: [("        results.push(result);\n    }\n\n    Ok(results)", "        if !result.nodeid.is_empty() {\n            results.push(result);\n        }\n    }\n\n    Ok(results)")]}, ["C09", "C10"]),
]
