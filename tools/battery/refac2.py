"""More rewritings that change no behaviour: workers, runner, executor, subprojects, configuration, command line."""
N, SC, WK, R, X, SP, U, CFG, CLI = ("src/native_runner.rs", "src/scheduler.rs", "src/worker.rs", "src/runner.rs", "src/pytest_executor.rs", "src/subproject.rs",
                                    "src/utils.rs", "src/config.rs", "src/cli.rs")
VARIANTS = []


def v(name, f, *reps, want=None):
    VARIANTS.append(("ry-" + name, {f: list(reps)}, {want} if want else set()))


# ---- worker.rs ----
ARGS = '''            for arg in task.initial_args {
                cmd.arg(arg);
            }
'''
v("wk-args", WK, (ARGS, "            cmd.args(task.initial_args);\n"), ('''            for test in task.tests {
                cmd.arg(test);
            }
''', "            cmd.args(&task.tests);\n"), ('''            for arg in task.pytest_args {
                cmd.arg(arg);
            }
''', "            cmd.args(task.pytest_args.iter());\n"), ('''            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }
''', "            cmd.envs(task.env_vars);\n"))
v("wk-chain", WK, ('''            for test in task.tests {
                cmd.arg(test);
            }
''', ""), ('''            for arg in task.pytest_args {
                cmd.arg(arg);
            }
''', "            cmd.args(task.tests.into_iter().chain(task.pytest_args));\n"))
OUT = '''            match cmd.output() {
                Ok(output) => WorkerResult {
                    worker_id: task.worker_id,
                    exit_code: output.status.code().unwrap_or(-1),
                    stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
                    stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
                },
                Err(e) => WorkerResult {
                    worker_id: task.worker_id,
                    exit_code: -1,
                    stdout: String::new(),
                    stderr: format!("Failed to execute command: {e}"),
                },
            }
'''
v("wk-tuple", WK, (OUT, '''            let (exit_code, stdout, stderr) = match cmd.output() {
                Ok(output) => (
                    output.status.code().unwrap_or(-1),
                    String::from_utf8_lossy(&output.stdout).into_owned(),
                    String::from_utf8_lossy(&output.stderr).into_owned(),
                ),
                Err(e) => (-1, String::new(), format!("Failed to execute command: {e}")),
            };
            WorkerResult {
                worker_id,
                exit_code,
                stdout,
                stderr,
            }
'''))
v("wk-letelse", WK, (OUT, '''            let output = match cmd.output() {
                Ok(output) => output,
                Err(e) => {
                    return WorkerResult {
                        worker_id: task.worker_id,
                        exit_code: -1,
                        stdout: String::new(),
                        stderr: format!("Failed to execute command: {e}"),
                    }
                }
            };
            let exit_code = match output.status.code() {
                Some(code) => code,
                None => -1,
            };
            WorkerResult {
                worker_id: task.worker_id,
                exit_code,
                stdout: String::from_utf8_lossy(&output.stdout).to_string(),
                stderr: String::from_utf8_lossy(&output.stderr).to_string(),
            }
'''))
v("wk-spawn-wait", WK, (OUT, '''            let outcome = cmd.spawn().and_then(|child| child.wait_with_output());
            match outcome {
                Ok(output) => WorkerResult {
                    worker_id: task.worker_id,
                    exit_code: output.status.code().unwrap_or(-1),
                    stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
                    stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
                },
                Err(e) => WorkerResult {
                    worker_id: task.worker_id,
                    exit_code: -1,
                    stdout: String::new(),
                    stderr: format!("Failed to execute command: {e}"),
                },
            }
'''))
v("wk-failed-fn", WK, ('''                Err(e) => WorkerResult {
                    worker_id: task.worker_id,
                    exit_code: -1,
                    stdout: String::new(),
                    stderr: format!("Failed to execute command: {e}"),
                },
''', '''                Err(e) => WorkerResult::failed(
                    task.worker_id,
                    format!("Failed to execute command: {e}"),
                ),
'''), ('''                    results.push(WorkerResult {
                        worker_id: worker.id,
                        exit_code: -1,
                        stdout: String::new(),
                        stderr: "Worker thread panicked".into(),
                    });
''', '''                    results.push(WorkerResult::failed(
                        worker.id,
                        "Worker thread panicked".into(),
                    ));
'''), ('''pub struct WorkerTask {
''', '''impl WorkerResult {
    fn failed(worker_id: usize, stderr: String) -> Self {
        Self {
            worker_id,
            exit_code: -1,
            stdout: String::new(),
            stderr,
        }
    }
}

pub struct WorkerTask {
'''))
WAIT = '''        let mut results = Vec::new();

        for worker in self.workers {
            match worker.handle.join() {
                Ok(result) => results.push(result),
                Err(_) => {
                    results.push(WorkerResult {
                        worker_id: worker.id,
                        exit_code: -1,
                        stdout: String::new(),
                        stderr: "Worker thread panicked".into(),
                    });
                }
            }
        }

'''
v("wk-wait-map", WK, (WAIT, '''        let mut results: Vec<WorkerResult> = self
            .workers
            .into_iter()
            .map(|worker| {
                let id = worker.id;
                worker.handle.join().unwrap_or_else(|_| WorkerResult {
                    worker_id: id,
                    exit_code: -1,
                    stdout: String::new(),
                    stderr: "Worker thread panicked".into(),
                })
            })
            .collect();

'''))
v("wk-wait-destructure", WK, (WAIT, '''        let mut results = Vec::with_capacity(self.workers.len());

        for WorkerHandle { id, handle } in self.workers {
            let result = match handle.join() {
                Ok(result) => result,
                Err(_) => WorkerResult {
                    worker_id: id,
                    exit_code: -1,
                    stdout: String::new(),
                    stderr: "Worker thread panicked".into(),
                },
            };
            results.push(result);
        }

'''), ("        results.sort_by_key(|r| r.worker_id);\n", "        results.sort_by(|a, b| a.worker_id.cmp(&b.worker_id));\n"))
v("wk-wait-btree", WK, (WAIT, '''        let mut by_id: std::collections::BTreeMap<usize, Vec<WorkerResult>> = std::collections::BTreeMap::new();

        for worker in self.workers {
            let id = worker.id;
            let result = worker.handle.join().unwrap_or_else(|_| WorkerResult {
                worker_id: id,
                exit_code: -1,
                stdout: String::new(),
                stderr: "Worker thread panicked".into(),
            });
            by_id.entry(result.worker_id).or_default().push(result);
        }
        by_id.into_values().flatten().collect()
'''), ('''        results.sort_by_key(|r| r.worker_id);
        results
''', ""))
v("wk-run-fn", WK, ('''        let handle = thread::spawn(move || {
            let mut cmd''', '''        let handle = thread::spawn(move || run_task(task));

        self.workers.push(WorkerHandle {
            id: worker_id,
            handle,
        });
    }

    #[allow(dead_code)]
    fn unused(task: WorkerTask) -> WorkerResult {
        {
            let mut cmd'''), ('''            }
        });

        self.workers.push(WorkerHandle {
            id: worker_id,
            handle,
        });
    }
''', '''            }
        }
    }
'''), ('''impl Default for WorkerPool {
''', '''fn run_task(task: WorkerTask) -> WorkerResult {
    WorkerPool::unused(task)
}

impl Default for WorkerPool {
'''))
v("wk-dir-once", WK, ('''            if let Some(ref dir) = task.working_dir {
                cmd.arg("--rootdir");
                cmd.arg(dir);
            }
''', '''            if let Some(dir) = &task.working_dir {
                cmd.arg("--rootdir").arg(dir).current_dir(dir);
            }
'''), ('''            if let Some(dir) = task.working_dir {
                cmd.current_dir(dir);
            }

''', ""))
v("wk-dir-match", WK, ('''            if let Some(ref dir) = task.working_dir {
                cmd.arg("--rootdir");
                cmd.arg(dir);
            }
''', '''            match task.working_dir.as_ref() {
                Some(dir) => {
                    cmd.args([std::ffi::OsStr::new("--rootdir"), dir.as_os_str()]);
                }
                None => {}
            }
'''))

# ---- runner.rs ----
RES = '''        let mut overall_exit_code = 0;
        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
'''
HELP = '''fn report_results(results: Vec<crate::WorkerResult>) -> i32 {
    let mut overall_exit_code = 0;
    for result in results {
        println!("=== Worker {} ===", result.worker_id);
        if !result.stdout.is_empty() {
            print!("{}", result.stdout);
        }
        if !result.stderr.is_empty() {
            eprint!("{}", result.stderr);
        }
        if result.exit_code != 0 {
            overall_exit_code = result.exit_code;
        }
    }
    overall_exit_code
}

pub struct PytestRunner {
'''
v("rn-report", R, (RES + "    } else {", "        report_results(worker_pool.wait_for_all())\n    } else {"), (RES, "        report_results(worker_pool.wait_for_all())\n"),
  ("        let results = worker_pool.wait_for_all();\n\n        report", "        report"), ("        let results = worker_pool.wait_for_all();\n\n        report", "        report"),
  ("pub struct PytestRunner {\n", HELP.replace("crate::WorkerResult", "crate::worker::WorkerResult")))
v("rn-fold", R, (RES + "    } else {", '''        results.iter().for_each(|result| {
            println!("=== Worker {} ===", result.worker_id);
            print!("{}", result.stdout);
            eprint!("{}", result.stderr);
        });
        results.iter().rev().map(|result| result.exit_code).find(|code| *code != 0).unwrap_or(0)
    } else {'''), (RES, '''        for result in &results {
            println!("=== Worker {} ===", result.worker_id);
            print!("{}", result.stdout);
            eprint!("{}", result.stderr);
        }
        results.iter().fold(0, |code, result| if result.exit_code != 0 { result.exit_code } else { code })
'''))
v("rn-destructure", R, (RES, RES.replace("for result in results {", "for WorkerResult { worker_id, exit_code, stdout, stderr } in results {").replace("result.worker_id", "worker_id").replace("result.stdout", "stdout").replace("result.stderr", "stderr").replace("result.exit_code", "exit_code").replace("stdout.is_empty()", "stdout.is_empty()")),
  ("use std::path::Path;\n", "use crate::worker::WorkerResult;\nuse std::path::Path;\n"))
SUBLOOP = '''            for batch in test_batches {
                if !batch.is_empty() {
                    worker_pool.spawn_worker(WorkerTask {
                        worker_id,
                        program: config.program.to_string(),
                        initial_args: config.initial_args.to_vec(),
                        tests: batch,
                        pytest_args: vec![],
                        working_dir: Some(subproject_root.clone()),
                        env_vars: config.env_vars.to_vec(),
                    });
                    worker_id += 1;
                }
            }
'''
v("rn-continue", R, (SUBLOOP, '''            for batch in test_batches {
                if batch.is_empty() {
                    continue;
                }
                let task = WorkerTask {
                    worker_id,
                    program: config.program.to_string(),
                    initial_args: config.initial_args.to_vec(),
                    tests: batch,
                    pytest_args: Vec::new(),
                    working_dir: Some(subproject_root.to_path_buf()),
                    env_vars: config.env_vars.to_vec(),
                };
                worker_id += 1;
                worker_pool.spawn_worker(task);
            }
'''))
v("rn-task-closure", R, (SUBLOOP, '''            for batch in test_batches.into_iter().filter(|batch| !batch.is_empty()) {
                worker_pool.spawn_worker(task(worker_id, batch, &subproject_root));
                worker_id += 1;
            }
'''), ('''        for (worker_id, tests) in test_batches.into_iter().enumerate() {
            if !tests.is_empty() {
                worker_pool.spawn_worker(WorkerTask {
                    worker_id,
                    program: config.program.to_string(),
                    initial_args: config.initial_args.to_vec(),
                    tests,
                    pytest_args: vec![],
                    working_dir: Some(config.rootpath.to_path_buf()),
                    env_vars: config.env_vars.to_vec(),
                });
            }
        }
''', '''        for (worker_id, tests) in test_batches.into_iter().enumerate() {
            if !tests.is_empty() {
                worker_pool.spawn_worker(task(worker_id, tests, config.rootpath));
            }
        }
'''), ("    if config.use_subprojects {\n", '''    let task = |worker_id: usize, tests: Vec<String>, dir: &Path| WorkerTask {
        worker_id,
        program: config.program.to_string(),
        initial_args: config.initial_args.to_vec(),
        tests,
        pytest_args: vec![],
        working_dir: Some(dir.to_path_buf()),
        env_vars: config.env_vars.to_vec(),
    };

    if config.use_subprojects {
'''))
v("rn-flat-map", R, ('''        let mut worker_id = 0;

        for (subproject_root, tests) in test_groups {
''', '''        let mut tasks: Vec<(std::path::PathBuf, Vec<String>)> = Vec::new();

        for (subproject_root, tests) in test_groups {
'''), (SUBLOOP, '''            for batch in test_batches {
                if !batch.is_empty() {
                    tasks.push((subproject_root.clone(), batch));
                }
            }
'''), ('''        if worker_id == 0 {
''', '''        if tasks.is_empty() {
'''), ('''        let results = worker_pool.wait_for_all();
''', '''        for (worker_id, (dir, tests)) in tasks.into_iter().enumerate() {
            worker_pool.spawn_worker(WorkerTask {
                worker_id,
                program: config.program.to_string(),
                initial_args: config.initial_args.to_vec(),
                tests,
                pytest_args: vec![],
                working_dir: Some(dir),
                env_vars: config.env_vars.to_vec(),
            });
        }

        let results = worker_pool.wait_for_all();
'''))
v("rn-early", R, ('''    if config.use_subprojects {
''', '''    if !config.use_subprojects {
        return run_flat(&config, distribution_mode, test_nodes, worker_count);
    }
    {
'''), ('''    } else {
        let scheduler = create_scheduler(distribution_mode);
''', '''    }
}

fn run_flat(
    config: &ParallelExecutionConfig,
    distribution_mode: DistributionMode,
    test_nodes: Vec<String>,
    worker_count: usize,
) -> i32 {
    {
        let scheduler = create_scheduler(distribution_mode);
'''))
v("rn-adjust", R, ('''            let adjusted_tests = if subproject_root != config.rootpath {
                subproject::make_test_paths_relative(&tests, config.rootpath, &subproject_root)
            } else {
                tests
            };
''', '''            let mut adjusted_tests = tests;
            if subproject_root.as_path() != config.rootpath {
                adjusted_tests = subproject::make_test_paths_relative(
                    &adjusted_tests,
                    config.rootpath,
                    &subproject_root,
                );
            }
'''))
v("rn-workers-if", R, ("    let worker_count = config.worker_count.max(1);\n", '''    let worker_count = if config.worker_count == 0 {
        1
    } else {
        config.worker_count
    };
'''))
v("rn-unused-info", R, ('''        if test_batches.is_empty() {
            log::info!("No test batches to execute.");
            return 0;
        }

        let mut worker_pool = WorkerPool::new();
''', '''        let mut worker_pool = WorkerPool::default();
        if test_batches.is_empty() {
            log::info!("No test batches to execute.");
            return 0;
        }
'''))

# ---- pytest_executor.rs ----
v("px-chain", X, ('''    run_cmd.args(test_nodes);
    run_cmd.args(pytest_args);
''', '''    for arg in test_nodes.iter().chain(pytest_args.iter()) {
        run_cmd.arg(arg);
    }
'''))
v("px-list", X, ('''    run_cmd.args(test_nodes);
    run_cmd.args(pytest_args);
''', '''    let mut rest = test_nodes;
    rest.extend(pytest_args);
    run_cmd.args(&rest);
'''))
v("px-code-match", X, ('''    let run_status = match run_cmd.status() {
        Ok(status) => status,
        Err(e) => {
            log::error!("Failed to execute pytest command: {e}");
            return 1;
        }
    };

    run_status.code().unwrap_or_else(|| {
        log::warn!("Pytest process terminated by signal");
        1
    })
''', '''    match run_cmd.status().map(|status| status.code()) {
        Ok(Some(code)) => code,
        Ok(None) => {
            log::warn!("Pytest process terminated by signal");
            1
        }
        Err(e) => {
            log::error!("Failed to execute pytest command: {e}");
            1
        }
    }
'''))
v("px-spawn", X, ("match run_cmd.status() {", "match run_cmd.spawn().and_then(|mut child| child.wait()) {"))
v("px-map-or", X, ('''    let run_status = match run_cmd.status() {
        Ok(status) => status,
        Err(e) => {
            log::error!("Failed to execute pytest command: {e}");
            return 1;
        }
    };

    run_status.code().unwrap_or_else(|| {
        log::warn!("Pytest process terminated by signal");
        1
    })
''', '''    run_cmd
        .status()
        .map_or(1, |status| status.code().unwrap_or(1))
'''))
v("px-envs", X, ('''    for (key, value) in env_vars {
        run_cmd.env(key, value);
    }
''', '''    run_cmd.envs(env_vars.iter().map(|(key, value)| (key.as_str(), value.as_str())));
'''), ('''        run_cmd.current_dir(dir);
        run_cmd.arg("--rootdir");
        run_cmd.arg(dir);
''', '''        run_cmd.arg("--rootdir").arg(dir.as_os_str());
        run_cmd.current_dir(dir);
'''))

# ---- subproject.rs ----
v("sp-split-find", SP, ('''    match node.split_once("::") {
        Some((path, test)) => (path, Some(test)),
        None => (node, None),
    }
''', '''    match node.find("::") {
        Some(at) => (&node[..at], Some(&node[at + 2..])),
        None => (node, None),
    }
'''))
v("sp-split-iter", SP, ('''    match node.split_once("::") {
        Some((path, test)) => (path, Some(test)),
        None => (node, None),
    }
''', '''    let mut parts = node.splitn(2, "::");
    (parts.next().unwrap_or(node), parts.next())
'''))
v("sp-split-map", SP, ('''    match node.split_once("::") {
        Some((path, test)) => (path, Some(test)),
        None => (node, None),
    }
''', '''    node.split_once("::")
        .map_or((node, None), |(path, test)| (path, Some(test)))
'''))
ROOT = '''    if let Some(parent) = test_path.parent() {
        let mut current = parent;

        while current.starts_with(rootpath) && current != rootpath {
            if current.join("pyproject.toml").exists() {
                return current.to_path_buf();
            }

            match current.parent() {
                Some(parent) => current = parent,
                None => break,
            }
        }
    }

    rootpath.to_path_buf()
'''
v("sp-ancestors", SP, (ROOT, '''    test_path
        .ancestors()
        .skip(1)
        .take_while(|dir| dir.starts_with(rootpath) && *dir != rootpath)
        .find(|dir| dir.join("pyproject.toml").exists())
        .unwrap_or(rootpath)
        .to_path_buf()
'''))
v("sp-option-walk", SP, (ROOT, '''    let mut current = test_path.parent();
    while let Some(dir) = current {
        if dir == rootpath || !dir.starts_with(rootpath) {
            break;
        }
        if dir.join("pyproject.toml").exists() {
            return dir.to_path_buf();
        }
        current = dir.parent();
    }

    rootpath.to_path_buf()
'''))
v("sp-for-ancestors", SP, (ROOT, '''    for dir in test_path.ancestors().skip(1) {
        if dir == rootpath {
            break;
        }
        if dir.join("pyproject.toml").exists() {
            return dir.to_path_buf();
        }
    }

    rootpath.to_path_buf()
'''))
v("sp-canon-if", SP, ('''    let test_path = match test_path.canonicalize() {
        Ok(path) if path.starts_with(rootpath) => path,
        _ => return rootpath.to_path_buf(),
    };
''', '''    let Ok(test_path) = test_path.canonicalize() else {
        return rootpath.to_path_buf();
    };
    if !test_path.starts_with(rootpath) {
        return rootpath.to_path_buf();
    }
'''))
REL = '''    test_nodes
        .iter()
        .map(|node| {
            let (file_path, test_part) = split_test_node(node);
'''
v("sp-rel-match", SP, ('''            match relative_path {
                Some(relative_path) => {
                    let mut new_node = relative_path.to_string_lossy().into_owned();
                    if let Some(test) = test_part {
                        new_node.push_str("::");
                        new_node.push_str(test);
                    }
                    new_node
                }
                None => node.clone(),
            }
''', '''            let Some(relative_path) = relative_path else {
                return node.clone();
            };
            let shown = relative_path.to_string_lossy();
            match test_part {
                Some(test) => format!("{shown}::{test}"),
                None => shown.into_owned(),
            }
'''))
v("sp-rel-suffix", SP, ('''                    let mut new_node = relative_path.to_string_lossy().into_owned();
                    if let Some(test) = test_part {
                        new_node.push_str("::");
                        new_node.push_str(test);
                    }
                    new_node
''', '''                    let rest = test_part.map(|test| format!("::{test}")).unwrap_or_default();
                    format!("{}{}", relative_path.display(), rest)
'''))
v("sp-rel-chain", SP, ('''            let relative_path = match absolute_path.strip_prefix(new_base) {
                Ok(relative_path) => Some(relative_path.to_path_buf()),
                // Subprojects are found by resolved path, which differs when a symlink leads to them
                Err(_) => absolute_path.canonicalize().ok().and_then(|resolved| {
                    resolved.strip_prefix(new_base).map(Path::to_path_buf).ok()
                }),
            };
''', '''            let relative_path = absolute_path
                .strip_prefix(new_base)
                .map(Path::to_path_buf)
                .ok()
                .or_else(|| {
                    let resolved = absolute_path.canonicalize().ok()?;
                    resolved.strip_prefix(new_base).ok().map(PathBuf::from)
                });
'''))
v("sp-rel-loop", SP, (REL, '''    let mut adjusted = Vec::with_capacity(test_nodes.len());
    for node in test_nodes {
            let (file_path, test_part) = split_test_node(node);
'''), ('''            match relative_path {
                Some(relative_path) => {
                    let mut new_node''', '''            adjusted.push(match relative_path {
                Some(relative_path) => {
                    let mut new_node'''), ('''                None => node.clone(),
            }
        })
        .collect()
''', '''                None => node.to_string(),
            });
    }
    adjusted
'''))
GRP = '''    for test_node in test_nodes {
        let subproject_root = find_subproject_root(rootpath, test_node);

        groups
            .entry(subproject_root)
            .or_default()
            .push(test_node.clone());
    }
'''
v("sp-group-match", SP, (GRP, '''    for test_node in test_nodes {
        let root = find_subproject_root(rootpath, test_node);
        if let Some(group) = groups.get_mut(&root) {
            group.push(test_node.clone());
        } else {
            groups.insert(root, vec![test_node.clone()]);
        }
    }
'''))
v("sp-group-foreach", SP, (GRP, '''    test_nodes.iter().for_each(|test_node| {
        let group = groups
            .entry(find_subproject_root(rootpath, test_node))
            .or_insert_with(Vec::new);
        group.push(test_node.to_owned());
    });
'''))

# ---- config.rs ----
v("cg-values-loop", CFG, ('''        Value::Array(values) => Some(
            values
                .iter()
                .filter_map(|v| v.as_str())
                .map(String::from)
                .collect(),
        ),
''', '''        Value::Array(values) => {
            let mut strings = Vec::new();
            for value in values {
                if let Some(string) = value.as_str() {
                    strings.push(string.to_string());
                }
            }
            Some(strings)
        }
'''))
v("cg-values-if", CFG, ('''    match value {
        Value::Array(values) => Some(
            values
                .iter()
                .filter_map(|v| v.as_str())
                .map(String::from)
                .collect(),
        ),
        Value::String(values) => Some(values.split_whitespace().map(String::from).collect()),
        _ => None,
    }
''', '''    if let Some(text) = value.as_str() {
        return Some(text.split_whitespace().map(str::to_owned).collect());
    }
    let values = value.as_array()?;
    Some(
        values
            .iter()
            .filter_map(|v| v.as_str().map(str::to_owned))
            .collect(),
    )
'''))
RD = '''    let content = match std::fs::read_to_string(&pyproject_path) {
        Ok(content) => content,
        Err(e) => {
            debug!("Failed to read pyproject.toml: {e}");
            return PytestConfig::default();
        }
    };

    let toml_value: Value = match toml::from_str(&content) {
        Ok(value) => value,
        Err(e) => {
            debug!("Failed to parse pyproject.toml: {e}");
            return PytestConfig::default();
        }
    };
'''
v("cg-parsed-fn", CFG, (RD, '''    let Some(toml_value) = parsed(&pyproject_path) else {
        return PytestConfig::default();
    };
'''), ("/// Read pytest configuration from pyproject.toml\npub fn", '''fn parsed(path: &Path) -> Option<Value> {
    let content = std::fs::read_to_string(path)
        .map_err(|e| debug!("Failed to read pyproject.toml: {e}"))
        .ok()?;
    match content.parse::<toml::Table>() {
        Ok(table) => Some(Value::Table(table)),
        Err(e) => {
            debug!("Failed to parse pyproject.toml: {e}");
            None
        }
    }
}

/// Read pytest configuration from pyproject.toml
pub fn'''))
v("cg-no-exists", CFG, ('''    if !pyproject_path.exists() {
        debug!("No pyproject.toml found at {pyproject_path:?}");
        return PytestConfig::default();
    }

''', ""))
v("cg-letelse", CFG, ('''    let ini_options = toml_value
        .get("tool")
        .and_then(|t| t.get("pytest"))
        .and_then(|p| p.get("ini_options"));
''', '''    let Some(options) = toml_value
        .get("tool")
        .and_then(|t| t.get("pytest"))
        .and_then(|p| p.get("ini_options"))
    else {
        return config;
    };
    let ini_options = Some(options);
'''))
KEYS = [("testpaths", '''        config.testpaths = testpaths.into_iter().map(PathBuf::from).collect();
        debug!("Found testpaths in pyproject.toml: {:?}", config.testpaths);
''')] + [(k, f'''        config.{k} = {k};
        debug!(
            "Found {k} in pyproject.toml: {{:?}}",
            config.{k}
        );
''') for k in ("python_files", "python_classes", "python_functions")]


def blk(k, body):
    return f'''    if let Some({k}) = ini_options
        .and_then(|i| i.get("{k}"))
        .and_then(setting_values)
    {{
{body}    }}
'''


v("cg-setting-closure", CFG, *[(blk(k, b), f'''    if let Some({k}) = setting("{k}") {{
{b}    }}
''') for k, b in KEYS], ("    let mut config = PytestConfig::default();\n", ""), ('''        .and_then(|p| p.get("ini_options"));
''', '''        .and_then(|p| p.get("ini_options"));
    let setting = |name: &str| ini_options.and_then(|i| i.get(name)).and_then(setting_values);
    let mut config = PytestConfig::default();
'''))
v("cg-literal", CFG, *[(blk(k, b), "") for k, b in KEYS], ("    let mut config = PytestConfig::default();\n", ""), ('''    config
}

#[cfg(test)]''', '''    let setting = |name: &str| -> Vec<String> {
        ini_options
            .and_then(|i| i.get(name))
            .and_then(setting_values)
            .unwrap_or_default()
    };
    PytestConfig {
        testpaths: setting("testpaths").into_iter().map(PathBuf::from).collect(),
        python_files: setting("python_files"),
        python_classes: setting("python_classes"),
        python_functions: setting("python_functions"),
    }
}

#[cfg(test)]'''))
v("cg-loop-keys", CFG, *[(blk(k, b), "") for k, b in KEYS[1:]], ('''    config
}

#[cfg(test)]''', '''    for (name, target) in [
        ("python_files", &mut config.python_files),
        ("python_classes", &mut config.python_classes),
        ("python_functions", &mut config.python_functions),
    ] {
        if let Some(values) = ini_options.and_then(|i| i.get(name)).and_then(setting_values) {
            *target = values;
        }
    }

    config
}

#[cfg(test)]'''))
v("cg-iter-table", CFG, *[(blk(k, b), "") for k, b in KEYS], ('''    config
}

#[cfg(test)]''', '''    if let Some(table) = ini_options.and_then(Value::as_table) {
        for (name, value) in table {
            let Some(values) = setting_values(value) else {
                continue;
            };
            match name.as_str() {
                "testpaths" => config.testpaths = values.into_iter().map(PathBuf::from).collect(),
                "python_files" => config.python_files = values,
                "python_classes" => config.python_classes = values,
                "python_functions" => config.python_functions = values,
                _ => {}
            }
        }
    }

    config
}

#[cfg(test)]'''))

# ---- cli.rs / utils.rs ----
NP = '''        match &self.numprocesses {
            None => Ok(None),
            Some(s) => match s.as_str() {
                "auto" => Ok(Some(NumProcesses::Auto)),
                "logical" => Ok(Some(NumProcesses::Logical)),
                _ => match s.parse::<usize>() {
                    Ok(n) => Ok(Some(NumProcesses::Count(n))),
                    Err(_) => Err(format!("Invalid number: {s}")),
                },
            },
        }
'''
v("cl-np-question", CLI, (NP, '''        let Some(s) = self.numprocesses.as_deref() else {
            return Ok(None);
        };
        let number = match s {
            "auto" => NumProcesses::Auto,
            "logical" => NumProcesses::Logical,
            _ => NumProcesses::Count(
                s.parse::<usize>()
                    .map_err(|_| format!("Invalid number: {s}"))?,
            ),
        };
        Ok(Some(number))
'''))
v("cl-np-flat", CLI, (NP, '''        match self.numprocesses.as_deref() {
            None => Ok(None),
            Some("auto") => Ok(Some(NumProcesses::Auto)),
            Some("logical") => Ok(Some(NumProcesses::Logical)),
            Some(s) => s
                .parse()
                .map(|n| Some(NumProcesses::Count(n)))
                .map_err(|_| format!("Invalid number: {s}")),
        }
'''))
v("cl-np-fromstr", CLI, (NP, '''        self.numprocesses
            .as_ref()
            .map(|s| s.parse::<NumProcesses>())
            .transpose()
'''), ("impl Args {\n", '''impl std::str::FromStr for NumProcesses {
    type Err = String;

    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s == "auto" {
            return Ok(NumProcesses::Auto);
        }
        if s == "logical" {
            return Ok(NumProcesses::Logical);
        }
        s.parse::<usize>()
            .map(NumProcesses::Count)
            .map_err(|_| format!("Invalid number: {s}"))
    }
}

impl Args {
'''))
v("cl-dist", CLI, ('''        match self.dist.parse::<crate::scheduler::DistributionMode>() {
            Ok(_) => Ok(()),
            Err(e) => Err(e.to_string()),
        }
''', '''        let _mode: crate::scheduler::DistributionMode =
            self.dist.parse().map_err(|e: crate::scheduler::ParseDistributionModeError| e.to_string())?;
        Ok(())
'''))
v("cl-dist-map", CLI, ('''        match self.dist.parse::<crate::scheduler::DistributionMode>() {
            Ok(_) => Ok(()),
            Err(e) => Err(e.to_string()),
        }
''', '''        self.dist
            .parse::<crate::scheduler::DistributionMode>()
            .map(|_| ())
            .map_err(|e| e.to_string())
'''))
UT = '''    match max_processes {
        Some(max) => desired.min(max),
        None => desired,
    }
'''
v("ut-if", U, (UT, '''    if let Some(max) = max_processes {
        if desired > max {
            return max;
        }
    }
    desired
'''))
v("ut-min", U, (UT, "    desired.min(max_processes.unwrap_or(usize::MAX))\n"))
v("ut-mapor", U, (UT, "    max_processes.map_or(desired, |max| std::cmp::min(max, desired))\n"))
v("ut-guard", U, (UT, '''    match max_processes {
        Some(max) if max < desired => max,
        _ => desired,
    }
'''))
