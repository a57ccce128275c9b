R = "src/runner.rs"
W = "src/worker.rs"
X = "src/pytest_executor.rs"
AGG = '''        let mut overall_exit_code = 0;
        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
'''
PR = '''        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }
'''
ST = '''            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
'''
WAIT = '''        for worker in self.workers {
            match worker.handle.join() {
                Ok(result) => results.push(result),
                Err(_) => {
                    results.push(WorkerResult {
                        worker_id: worker.id,
                        exit_code: -1,
                        stdout: String::new(),
                        stderr: "Worker thread panicked".into(),
                    });
                }
            }
        }
'''
SPAWN2 = '''        for (worker_id, tests) in test_batches.into_iter().enumerate() {
            if !tests.is_empty() {
                worker_pool.spawn_worker(WorkerTask {
                    worker_id,
                    program: config.program.to_string(),
                    initial_args: config.initial_args.to_vec(),
                    tests,
                    pytest_args: vec![],
                    working_dir: Some(config.rootpath.to_path_buf()),
                    env_vars: config.env_vars.to_vec(),
                });
            }
        }
'''
FOLD = '''        results.iter().fold(0, |acc, r| if r.exit_code != 0 { r.exit_code } else { acc })
'''
P = "src/pyo3.rs"
MAINCODE = '''                    if code != 0 {
                        overall_exit_code = code;
                    }
'''
VARIANTS = [
    # refactorings
    ("pt-rf-first-failure", {R: [(AGG, AGG.replace("if result.exit_code != 0 {", "if overall_exit_code == 0 {"))] * 2}, []),
    ("pt-rf-fold", {R: [(AGG, PR.replace("in results {", "in &results {") + "        }\n" + FOLD)] * 2}, []),
    ("pt-rf-flag", {R: [(AGG, AGG.replace("let mut overall_exit_code = 0;", "let mut overall_exit_code = 0; let mut failed = false;").replace("overall_exit_code = result.exit_code;", "failed = true; overall_exit_code = result.exit_code;").replace("        overall_exit_code\n", "        if failed { overall_exit_code } else { 0 }\n"))] * 2}, []),
    ("pt-rf-any", {R: [(AGG, PR.replace("in results {", "in &results {") + "        }\n        if results.iter().any(|r| r.exit_code != 0) { 1 } else { 0 }\n")] * 2}, []),
    ("pt-rf-all", {R: [(AGG, PR.replace("in results {", "in &results {") + "        }\n        i32::from(!results.iter().all(|r| r.exit_code == 0))\n")] * 2}, []),
    ("pt-rf-find", {R: [(AGG, PR.replace("in results {", "in &results {") + "        }\n        results.iter().map(|r| r.exit_code).find(|c| *c != 0).unwrap_or(0)\n")] * 2}, []),
    ("pt-rf-last", {R: [(AGG, PR.replace("in results {", "in &results {") + "        }\n        results.iter().map(|r| r.exit_code).filter(|c| *c != 0).last().unwrap_or(0)\n")] * 2}, []),
    ("pt-rf-helper", {R: [(AGG, "        report_results(results)\n")] * 2 + [("pub fn execute_tests_parallel(", "fn report_results(results: Vec<crate::worker::WorkerResult>) -> i32 {\n" + AGG + "}\n\npub fn execute_tests_parallel(")]}, []),
    ("pt-rf-wait-map", {W: [(WAIT, '''        for worker in self.workers {
            let id = worker.id;
            let r = worker.handle.join().unwrap_or_else(|_| WorkerResult {
                worker_id: id,
                exit_code: -1,
                stdout: String::new(),
                stderr: "Worker thread panicked".into(),
            });
            results.push(r);
        }
''')]}, []),
    ("pt-rf-wait-iter", {W: [("        let mut results = Vec::new();\n\n" + WAIT + "\n        results.sort_by_key(|r| r.worker_id);\n        results", '''        let mut results: Vec<WorkerResult> = self.workers.into_iter().map(|WorkerHandle { id, handle }| match handle.join() {
            Ok(r) => r,
            Err(_) => WorkerResult { worker_id: id, exit_code: -1, stdout: String::new(), stderr: "Worker thread panicked".into() },
        }).collect();
        results.sort_by(|a, b| a.worker_id.cmp(&b.worker_id));
        results''')]}, []),
    ("pt-rf-spawn-filter", {R: [(SPAWN2, SPAWN2.replace("for (worker_id, tests) in test_batches.into_iter().enumerate() {\n            if !tests.is_empty() {", "for (worker_id, tests) in test_batches.into_iter().filter(|b| !b.is_empty()).enumerate() {\n            {"))]}, []),
    ("pt-rf-spawn-while", {R: [(SPAWN2, '''        let mut worker_id = 0;
        let mut it = test_batches.into_iter();
        while let Some(tests) = it.next() {
            let id = worker_id;
            worker_id += 1;
            if tests.is_empty() {
                continue;
            }
            let task = WorkerTask {
                worker_id: id,
                program: config.program.to_string(),
                initial_args: config.initial_args.to_vec(),
                tests,
                pytest_args: vec![],
                working_dir: Some(config.rootpath.to_path_buf()),
                env_vars: config.env_vars.to_vec(),
            };
            worker_pool.spawn_worker(task);
        }
''')]}, []),
    ("pt-rf-args", {W: [('''            for test in task.tests {
                cmd.arg(test);
            }
''', "            cmd.args(&task.tests);\n"), ('''            for arg in task.pytest_args {
                cmd.arg(arg);
            }
''', "            cmd.args(task.pytest_args.iter());\n"), ('''            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }
''', "            cmd.envs(task.env_vars.iter().map(|(k, v)| (k, v)));\n")]}, []),
    ("pt-rf-status", {X: [('''    let run_status = match run_cmd.status() {
        Ok(status) => status,
        Err(e) => {
            log::error!("Failed to execute pytest command: {e}");
            return 1;
        }
    };

    run_status.code().unwrap_or_else(|| {
        log::warn!("Pytest process terminated by signal");
        1
    })
''', '''    match run_cmd.status() {
        Ok(status) => match status.code() { Some(c) => c, None => 1 },
        Err(e) => {
            log::error!("Failed to execute pytest command: {e}");
            1
        }
    }
''')]}, []),
    ("pt-rf-success", {X: [('''    run_status.code().unwrap_or_else(|| {
        log::warn!("Pytest process terminated by signal");
        1
    })
''', '''    if run_status.success() {
        return 0;
    }
    run_status.code().unwrap_or(1)
''')]}, []),
    ("pt-rf-spawn-wait", {X: [("run_cmd.status()", "run_cmd.spawn().and_then(|mut c| c.wait())")]}, []),
    ("pt-rf-code-in-thread", {W: [("exit_code: output.status.code().unwrap_or(-1),", "exit_code: if output.status.success() { 0 } else { output.status.code().unwrap_or(-1) },")]}, []),
    ("pt-rf-main-extract", {P: [(MAINCODE, "                    overall_exit_code = if code == 0 { overall_exit_code } else { code };\n")]}, []),
    ("pt-rf-main-continue", {P: [(MAINCODE, "                    if code == 0 {\n                        continue;\n                    }\n                    overall_exit_code = code;\n")]}, []),
    ("pt-rf-main-exitcall", {P: [("                execute_tests_parallel(&config, test_nodes)\n", "                let c = execute_tests_parallel(&config, test_nodes);\n                std::process::exit(c)\n")]}, []),
    # bugs
    ("pt-bug-main-last", {P: [(MAINCODE, "                    overall_exit_code = code;\n")]}, ["C04"]),
    ("pt-bug-main-drop", {P: [("                execute_tests_parallel(&config, test_nodes)\n", "                execute_tests_parallel(&config, test_nodes).max(0)\n")]}, ["C04"]),
    ("pt-bug-main-5", {P: [(MAINCODE, MAINCODE.replace("code != 0", "code != 0 && code != 5"))]}, ["C04"]),
    ("pt-bug-last-wins", {R: [(ST, "            overall_exit_code = result.exit_code;\n")] * 2}, ["C04"]),
    ("pt-bug-last-wins-1", {R: [(ST, "            overall_exit_code = result.exit_code;\n")]}, ["C04"]),
    ("pt-bug-max", {R: [(ST, "            overall_exit_code = overall_exit_code.max(result.exit_code);\n")] * 2}, ["C04"]),
    ("pt-bug-or-xor", {R: [(ST, "            overall_exit_code ^= result.exit_code;\n")] * 2}, ["C04"]),
    ("pt-bug-positive", {R: [("if result.exit_code != 0 {", "if result.exit_code > 0 {")] * 2}, ["C04"]),
    ("pt-bug-signal-zero", {W: [("output.status.code().unwrap_or(-1)", "output.status.code().unwrap_or_default()")]}, ["C04"]),
    ("pt-bug-signal-zero-seq", {X: [('''        log::warn!("Pytest process terminated by signal");
        1
''', '''        log::warn!("Pytest process terminated by signal");
        0
''')]}, ["C04"]),
    ("pt-bug-nostart-seq", {X: [("            return 1;\n", "            return 0;\n")]}, ["C04"]),
    ("pt-bug-panic-skipped", {W: [(WAIT, "        for worker in self.workers {\n            if let Ok(r) = worker.handle.join() { results.push(r); }\n        }\n")]}, ["C04"]),
    ("pt-bug-flatten", {W: [(WAIT, "        results.extend(self.workers.into_iter().flat_map(|w| w.handle.join()));\n")]}, ["C04"]),
    ("pt-bug-exit5", {R: [("if result.exit_code != 0 {", "if result.exit_code != 0 && result.exit_code != 5 {")] * 2}, ["C04"]),
    ("pt-bug-take-while", {R: [(AGG, AGG.replace("        for result in results {", "        for result in results.into_iter().take(config.worker_count) {"))]}, ["C03", "C04"]),
    ("pt-bug-skip-quiet", {R: [(AGG, AGG.replace('            println!("=== Worker {} ===", result.worker_id);\n', '            if result.stdout.is_empty() && result.stderr.is_empty() { continue; }\n            println!("=== Worker {} ===", result.worker_id);\n'))] * 2}, ["C04"]),
    ("pt-bug-mod256", {X: [('''    run_status.code().unwrap_or_else(|| {
        log::warn!("Pytest process terminated by signal");
        1
    })
''', '''    run_status.code().map(|c| c % 2).unwrap_or(1)
''')]}, ["C04"]),
    ("pt-bug-reset", {R: [(ST, "            if result.exit_code != 0 {\n                overall_exit_code = result.exit_code;\n            } else if result.stderr.is_empty() {\n                overall_exit_code = 0;\n            }\n")] * 2}, ["C04"]),
    ("pt-bug-no-stderr-ok", {W: [("exit_code: output.status.code().unwrap_or(-1),", "exit_code: if output.stderr.is_empty() && output.status.code().is_none() { 0 } else { output.status.code().unwrap_or(-1) },")]}, ["C04"]),
    ("pt-bug-start-err-zero", {W: [('''                    exit_code: -1,
                    stdout: String::new(),
                    stderr: format!("Failed to execute command: {e}"),''', '''                    exit_code: if e.kind() == std::io::ErrorKind::Interrupted { 0 } else { -1 },
                    stdout: String::new(),
                    stderr: format!("Failed to execute command: {e}"),''')]}, ["C04"]),
]

SUBSPAWN = "                if !batch.is_empty() {\n                    worker_pool.spawn_worker"
VARIANTS += [
    # C03
    ("c03-bug-batch-single", {R: [(SUBSPAWN, SUBSPAWN.replace("!batch.is_empty()", "batch.len() > 1"))]}, ["C03"]),
    ("c03-bug-ids-reset", {R: [("        for (subproject_root, tests) in test_groups {\n", "        for (subproject_root, tests) in test_groups {\n            worker_id = if tests.len() > 100 { 0 } else { worker_id };\n")]}, ["C03", "C04"]),
    ("c03-bug-ids-enumerate", {R: [("            for batch in test_batches {\n", "            for (worker_id, batch) in test_batches.into_iter().enumerate() {\n"), ("                    worker_id += 1;\n", "                    started += 1;\n"), ("        let mut worker_id = 0;\n", "        let mut started = 0;\n"), ("        if worker_id == 0 {", "        if started == 0 {")]}, ["C03"]),
    ("c03-rf-ids-started", {R: [("        if worker_id == 0 {", "        if worker_pool.worker_count() == 0 {")]}, []),
    ("c03-bug-stdout-fail-only", {R: [("            if !result.stdout.is_empty() {\n", "            if !result.stdout.is_empty() && result.exit_code != 0 {\n")]}, ["C03"]),
    ("c03-bug-stderr-either", {R: [("            if !result.stderr.is_empty() {\n", "            else if !result.stderr.is_empty() {\n")]}, ["C03"]),
    ("c03-bug-stdout-dup", {R: [('                eprint!("{}", result.stderr);', '                eprint!("{}", result.stdout);')]}, ["C03"]),
    ("c03-bug-wait-take", {W: [("        for worker in self.workers {\n            match", "        for worker in self.workers.into_iter().take(64) {\n            match")]}, ["C03", "C04"]),
    ("c03-bug-wait-finished", {W: [("        for worker in self.workers {\n            match", "        for worker in self.workers {\n            if worker.handle.is_finished() && results.len() > 8 {\n                continue;\n            }\n            match")]}, ["C03", "C04"]),
    ("c03-bug-handle-dropped", {W: [("        self.workers.push(WorkerHandle {", "        if self.workers.len() < 256 {\n        self.workers.push(WorkerHandle {"), ("            handle,\n        });\n", "            handle,\n        });\n        }\n")]}, ["C03"]),
    ("c03-bug-dedup-results", {W: [("        results.sort_by_key(|r| r.worker_id);\n", "        results.sort_by_key(|r| r.worker_id);\n        results.dedup_by_key(|r| r.worker_id);\n")]}, ["C03", "C04"]),
    ("c03-bug-stdout-cut", {W: [("stdout: String::from_utf8_lossy(&output.stdout).into_owned(),", "stdout: String::from_utf8_lossy(&output.stdout[..output.stdout.len().min(65536)]).into_owned(),")]}, ["C03"]),
    ("c03-bug-stdout-utf8", {W: [("stdout: String::from_utf8_lossy(&output.stdout).into_owned(),", "stdout: String::from_utf8(output.stdout).unwrap_or_default(),")]}, ["C03"]),
    ("c03-bug-break-first", {R: [(AGG, AGG.replace("overall_exit_code = result.exit_code;\n            }", "overall_exit_code = result.exit_code;\n                break;\n            }"))]}, ["C03"]),
    ("c03-bug-same-batch", {R: [("                        tests: batch,\n", "                        tests: batch.iter().filter(|t| t.contains(\"::\")).cloned().collect(),\n")]}, ["C03"]),
    ("c03-rf-print-fn", {R: [(AGG, "        report(results)\n"), ("/// Execute tests in parallel across", "fn report(results: Vec<crate::worker::WorkerResult>) -> i32 {\n" + AGG + "}\n\n/// Execute tests in parallel across")]}, []),
    ("c03-rf-print-always", {R: [('            if !result.stdout.is_empty() {\n                print!("{}", result.stdout);\n            }\n', '            print!("{}", result.stdout);\n')]}, []),
    ("c03-rf-print-while", {R: [("        for result in results {", "        let mut it = results.into_iter();\n        while let Some(result) = it.next() {")]}, []),
    ("c03-rf-foreach", {R: [(PR, '''        let codes: Vec<i32> = results.iter().map(|result| {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }
            result.exit_code
        }).collect();
        for result in &results {
            let _ = codes.len();
''')]}, []),
    ("c03-rf-nonempty-first", {R: [("        for (worker_id, tests) in test_batches.into_iter().enumerate() {\n            if !tests.is_empty() {", "        for (worker_id, tests) in test_batches.into_iter().filter(|t| !t.is_empty()).enumerate() {\n            {")]}, []),
    ("c03-rf-counter", {R: [("        for (worker_id, tests) in test_batches.into_iter().enumerate() {\n", "        let mut worker_id = 0;\n        for tests in test_batches {\n            worker_id += 1;\n")]}, []),
    ("c03-rf-sortby", {W: [("        results.sort_by_key(|r| r.worker_id);\n", "        results.sort_by(|a, b| a.worker_id.cmp(&b.worker_id));\n")]}, []),
    ("c03-rf-nosort", {W: [("        results.sort_by_key(|r| r.worker_id);\n", "")]}, []),
    ("c03-rf-args", {W: [("            for test in task.tests {\n                cmd.arg(test);\n            }\n", "            cmd.args(&task.tests);\n")]}, []),
    ("c03-rf-extend", {R: [("                        tests: batch,\n", "                        tests: { let mut v = Vec::with_capacity(batch.len()); v.extend(batch); v },\n")]}, []),
]
