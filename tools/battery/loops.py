"""Loops and branches rewritten without changing what they do."""
S, R, N, W, B, X = "src/scheduler.rs", "src/runner.rs", "src/native_runner.rs", "src/worker.rs", "src/subproject.rs", "src/pytest_executor.rs"
LOAD = '''        let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];

        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }
'''
GROUPS = '''    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
    }
'''
KEY = '''    for test in tests {
        let key = key_extractor(&test);
        groups.entry(key).or_default().push(test);
    }
'''
SHARD = '''    for (i, file) in files.into_iter().enumerate() {
        shards[i % actual_workers].push(file);
    }
'''
LINES = '''    for (line_num, line) in reader.lines().enumerate() {
        let line = line.map_err(|e| format!("Failed to read line {}: {}", line_num + 1, e))?;

        if line.trim().is_empty() {
            continue;
        }

        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;

        results.push(result);
    }
'''
AGG = '''    for results in all_results {
        for result in results {
'''
JOIN = '''    for (i, handle) in handles.into_iter().enumerate() {
        match handle.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
        }
    }
'''
READ = '''    for output_file in &output_files {
        match parse_results_file(output_file) {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
'''
SPAWN = "    for (i, (shard, output_file)) in shards.into_iter().zip(output_files.iter()).enumerate() {\n"
SPAWNBODY = '''        let python = config.python_executable.clone();
        let root = config.root_path.clone();
        let output_file = output_file.clone();
'''
FILES = '''    for file in files {
        cmd.arg(file);
    }
'''
PRINT = '''    for result in results {
        println!("  {}", result.nodeid);
        if let Some(error) = &result.error {
            print_error_info(error);
        }
    }
'''
WAIT = '''        for worker in self.workers {
            match worker.handle.join() {
                Ok(result) => results.push(result),
                Err(_) => {
                    results.push(WorkerResult {
                        worker_id: worker.id,
                        exit_code: -1,
                        stdout: String::new(),
                        stderr: "Worker thread panicked".into(),
                    });
                }
            }
        }
'''
TESTS = '''            for test in task.tests {
                cmd.arg(test);
            }
'''
PLAIN = "        for (worker_id, tests) in test_batches.into_iter().enumerate() {\n            if !tests.is_empty() {\n"
SUBB = "            for batch in test_batches {\n                if !batch.is_empty() {\n"
CODE = '''        let mut overall_exit_code = 0;
        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    }
}
'''


def v(name, f, *edits):
    return ("lw-" + name, {f: list(edits)}, [])


VARIANTS = [
    v("load-while", S, (LOAD, '''        let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];

        let mut i = 0;
        while i < tests.len() {
            workers[i % num_workers].push(tests[i].clone());
            i += 1;
        }
''')),
    v("load-next", S, (LOAD, '''        let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];

        let mut remaining = tests.into_iter();
        let mut worker = 0;
        while let Some(test) = remaining.next() {
            workers[worker].push(test);
            worker += 1;
            if worker == num_workers {
                worker = 0;
            }
        }
''')),
    v("load-range", S, (LOAD, '''        let mut workers: Vec<Vec<String>> = Vec::new();
        for w in 0..num_workers {
            workers.push(tests.iter().skip(w).step_by(num_workers).cloned().collect());
        }
''')),
    v("load-drain", S, (LOAD, '''        let mut tests = tests;
        let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];
        for (i, test) in tests.drain(..).enumerate() {
            let slot = i % num_workers;
            let list = &mut workers[slot];
            list.push(test);
        }
''')),
    v("groups-while", S, (GROUPS, '''    let mut i = 0;
    for group in groups {
        for test in group {
            workers[i % num_workers].push(test);
        }
        i += 1;
    }
''')),
    v("groups-wrap", S, (GROUPS, '''    let mut next = 0;
    for mut group in groups {
        workers[next].append(&mut group);
        next = (next + 1) % num_workers;
    }
''')),
    v("groups-foreach", S, (GROUPS, '''    groups.into_iter().enumerate().for_each(|(i, group)| {
        workers[i % num_workers].extend(group);
    });
''')),
    v("key-while", S, (KEY, '''    let mut i = 0;
    while i < tests.len() {
        let key = key_extractor(&tests[i]);
        groups.entry(key).or_insert_with(Vec::new).push(tests[i].clone());
        i += 1;
    }
''')),
    v("key-foreach", S, (KEY, '''    tests.into_iter().for_each(|test| {
        groups.entry(key_extractor(&test)).or_default().push(test);
    });
''')),
    v("key-match", S, (KEY, '''    for test in tests {
        let key = key_extractor(&test);
        match groups.get_mut(&key) {
            Some(list) => list.push(test),
            None => {
                groups.insert(key, vec![test]);
            }
        }
    }
''')),
    v("shard-while", N, (SHARD, '''    let mut i = 0;
    while i < files.len() {
        shards[i % actual_workers].push(files[i].clone());
        i += 1;
    }
''')),
    v("shard-next", N, (SHARD, '''    let mut rest = files.into_iter();
    let mut i = 0;
    while let Some(file) = rest.next() {
        shards[i % actual_workers].push(file);
        i += 1;
    }
''')),
    v("shard-range", N, (SHARD, '''    for i in 0..files.len() {
        let target = i % actual_workers;
        shards[target].push(files[i].clone());
    }
''')),
    v("shard-wrap", N, (SHARD, '''    let mut target = 0;
    for file in files {
        shards[target].push(file);
        target += 1;
        if target >= actual_workers {
            target = 0;
        }
    }
''')),
    v("shard-cycle", N, (SHARD, '''    for (file, target) in files.into_iter().zip((0..actual_workers).cycle()) {
        shards[target].push(file);
    }
''')),
    v("lines-while", N, (LINES, '''    let mut lines = reader.lines();
    let mut line_num = 0;
    while let Some(line) = lines.next() {
        line_num += 1;
        let line = line.map_err(|e| format!("Failed to read line {}: {}", line_num, e))?;
        if !line.trim().is_empty() {
            let result: TestResult = serde_json::from_str(&line)
                .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num, e))?;
            results.push(result);
        }
    }
''')),
    v("lines-match", N, (LINES, '''    for (line_num, line) in reader.lines().enumerate() {
        let line = match line {
            Ok(line) => line,
            Err(e) => return Err(format!("Failed to read line {}: {}", line_num + 1, e)),
        };
        if line.trim().is_empty() {
            continue;
        }
        match serde_json::from_str::<TestResult>(&line) {
            Ok(result) => results.push(result),
            Err(e) => return Err(format!("Failed to parse JSON on line {}: {}", line_num + 1, e)),
        }
    }
''')),
    v("lines-loop", N, (LINES, '''    let mut lines = reader.lines().enumerate();
    loop {
        let Some((line_num, line)) = lines.next() else {
            break;
        };
        let line = line.map_err(|e| format!("Failed to read line {}: {}", line_num + 1, e))?;
        if line.trim().is_empty() {
            continue;
        }
        results.push(
            serde_json::from_str(&line)
                .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?,
        );
    }
''')),
    v("agg-flatten", N, (AGG, '''    {
        for result in all_results.into_iter().flatten() {
''')),
    v("agg-while", N, (AGG, '''    let mut lists = all_results.into_iter();
    while let Some(results) = lists.next() {
        for result in results {
''')),
    v("agg-concat", N, (AGG, '''    {
        for result in all_results.concat() {
''')),
    v("join-while", N, (JOIN, '''    let mut i = 0;
    for handle in handles {
        let outcome = handle.join();
        if let Ok(result) = outcome {
            if let Err(e) = result {
                worker_errors.push(format!("Worker {}: {}", i, e));
            }
        } else {
            worker_errors.push(format!("Worker {} panicked", i));
        }
        i += 1;
    }
''')),
    v("join-extend", N, (JOIN, '''    worker_errors.extend(handles.into_iter().enumerate().filter_map(|(i, handle)| match handle.join() {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(format!("Worker {}: {}", i, e)),
        Err(_) => Some(format!("Worker {} panicked", i)),
    }));
''')),
    v("join-drain", N, (JOIN, '''    let mut handles = handles;
    for (i, handle) in handles.drain(..).enumerate() {
        let error = match handle.join() {
            Ok(Ok(())) => continue,
            Ok(Err(e)) => format!("Worker {}: {}", i, e),
            Err(_) => format!("Worker {} panicked", i),
        };
        worker_errors.push(error);
    }
''')),
    v("read-range", N, (READ, '''    for i in 0..output_files.len() {
        match parse_results_file(&output_files[i]) {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
''')),
    v("read-while", N, (READ, '''    let mut k = 0;
    while k < output_files.len() {
        match parse_results_file(&output_files[k]) {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
        k += 1;
    }
''')),
    v("read-partition", N, (READ, '''    let parsed: Vec<_> = output_files.iter().map(|f| parse_results_file(f)).collect();
    for outcome in parsed {
        match outcome {
            Ok(results) => all_results.push(results),
            Err(e) => worker_errors.push(e),
        }
    }
''')),
    v("spawn-range", N, (SPAWN, "    for i in 0..shards.len() {\n        let shard = shards[i].clone();\n        let output_file = &output_files[i];\n")),
    v("spawn-while", N, (SPAWN, "    let mut i = 0;\n    for shard in shards {\n        let output_file = &output_files[i];\n        i += 1;\n        let i = i - 1;\n")),
    v("spawn-enum", N, (SPAWN, "    for (i, shard) in shards.into_iter().enumerate() {\n        let output_file = &output_files[i];\n")),
    v("files-while", N, (FILES, '''    let mut i = 0;
    while i < files.len() {
        cmd.arg(&files[i]);
        i += 1;
    }
''')),
    v("files-args", N, (FILES, "    cmd.args(files);\n")),
    v("files-range", N, (FILES, "    for i in 0..files.len() {\n        cmd.arg(&files[i]);\n    }\n")),
    v("print-while", N, (PRINT, '''    let mut i = 0;
    while i < results.len() {
        let result = &results[i];
        println!("  {}", result.nodeid);
        if let Some(error) = &result.error {
            print_error_info(error);
        }
        i += 1;
    }
''')),
    v("print-foreach", N, (PRINT, '''    results.iter().for_each(|result| {
        println!("  {}", result.nodeid);
        result.error.iter().for_each(print_error_info);
    });
''')),
    v("wait-while", W, (WAIT, '''        let mut workers = self.workers.into_iter();
        while let Some(worker) = workers.next() {
            let WorkerHandle { id, handle } = worker;
            results.push(handle.join().unwrap_or_else(|_| WorkerResult {
                worker_id: id,
                exit_code: -1,
                stdout: String::new(),
                stderr: "Worker thread panicked".into(),
            }));
        }
''')),
    v("wait-pop", W, (WAIT, '''        let mut workers = self.workers;
        while let Some(worker) = workers.pop() {
            match worker.handle.join() {
                Ok(result) => results.push(result),
                Err(_) => {
                    results.push(WorkerResult {
                        worker_id: worker.id,
                        exit_code: -1,
                        stdout: String::new(),
                        stderr: "Worker thread panicked".into(),
                    });
                }
            }
        }
''')),
    v("tests-while", W, (TESTS, '''            let mut i = 0;
            while i < task.tests.len() {
                cmd.arg(&task.tests[i]);
                i += 1;
            }
''')),
    v("tests-args", W, (TESTS, "            cmd.args(&task.tests);\n")),
    v("plain-while", R, (PLAIN, "        let mut next_id = 0;\n        for tests in test_batches {\n            let worker_id = next_id;\n            next_id += 1;\n            if !tests.is_empty() {\n")),
    v("plain-range", R, (PLAIN, "        for worker_id in 0..test_batches.len() {\n            let tests = test_batches[worker_id].clone();\n            if !tests.is_empty() {\n")),
    v("sub-filter", R, (SUBB, "            for batch in test_batches.into_iter().filter(|b| !b.is_empty()) {\n                {\n")),
    v("sub-continue", R, (SUBB, "            for batch in test_batches {\n                if batch.is_empty() {\n                    continue;\n                }\n                {\n")),
    v("code-while", R, (CODE, CODE.replace("for result in results {", "let mut i = 0;\n        while i < results.len() {\n            let result = &results[i];\n            i += 1;"))),
    v("code-helper", R, (CODE, '''        report(results)
    }
}

fn report(results: Vec<crate::worker::WorkerResult>) -> i32 {
    {
''' + CODE.replace("        let mut overall", "        let mut overall"))),
]
