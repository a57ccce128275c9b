R = "src/runner.rs"
W = "src/worker.rs"
X = "src/pytest_executor.rs"
O = "src/pyo3.rs"
XENV = '''    for (key, value) in env_vars {
        run_cmd.env(key, value);
    }
'''
XDIR = '''    if let Some(dir) = working_dir {
        run_cmd.current_dir(dir);
        run_cmd.arg("--rootdir");
        run_cmd.arg(dir);
    }
'''
XT = "    run_cmd.args(test_nodes);\n    run_cmd.args(pytest_args);\n"
WENV = '''            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }
'''
WINI = '''            for arg in task.initial_args {
                cmd.arg(arg);
            }
'''
WROOT = '''            if let Some(ref dir) = task.working_dir {
                cmd.arg("--rootdir");
                cmd.arg(dir);
            }
'''
WT = '''            for test in task.tests {
                cmd.arg(test);
            }
'''
WX = '''            for arg in task.pytest_args {
                cmd.arg(arg);
            }
'''
WCWD = '''            if let Some(dir) = task.working_dir {
                cmd.current_dir(dir);
            }
'''
PENV = '''        let parsed_env_vars: Vec<(String, String)> = env_vars
            .iter()
            .filter_map(|env_str| {
                if let Some((key, value)) = env_str.split_once('=') {
                    Some((key.to_string(), value.to_string()))
                } else {
                    log::warn!("Invalid environment variable format: {}", env_str);
                    None
                }
            })
            .collect();
'''
SPLIT = "if let Some((key, value)) = env_str.split_once('=') {\n                    Some((key.to_string(), value.to_string()))"
ADJ = '''            let adjusted_tests = if subproject_root != config.rootpath {
                subproject::make_test_paths_relative(&tests, config.rootpath, &subproject_root)
            } else {
                tests
            };
'''
WD = "working_dir: Some(subproject_root.clone()),"
def penv(body):
    return {R: [(PENV, "        let parsed_env_vars: Vec<(String, String)> = " + body + ";\n")]}

VARIANTS = [
    ("cmd-rf-envs", {X: [(XENV, "    run_cmd.envs(env_vars.iter().map(|(k, v)| (k, v)));\n")]}, []),
    ("cmd-rf-envs2", {W: [(WENV, "            cmd.envs(task.env_vars);\n")]}, []),
    ("cmd-rf-args", {W: [(WINI, "            cmd.args(task.initial_args);\n"), (WT, "            cmd.args(&task.tests);\n"), (WX, "            cmd.args(task.pytest_args.iter());\n")]}, []),
    ("cmd-rf-loops", {X: [(XT, "    for t in &test_nodes {\n        run_cmd.arg(t);\n    }\n    for a in pytest_args.into_iter() {\n        run_cmd.arg(a);\n    }\n")]}, []),
    ("cmd-rf-chain", {X: [(XT, "    run_cmd.args(test_nodes.iter().chain(pytest_args.iter()));\n")]}, []),
    ("cmd-rf-chain2", {W: [(WT + "\n" + WX, "            for a in task.tests.into_iter().chain(task.pytest_args) {\n                cmd.arg(a);\n            }\n")]}, []),
    ("cmd-rf-builder", {X: [(XENV, XENV), (XDIR, "    if let Some(dir) = working_dir {\n        run_cmd.current_dir(dir).arg(\"--rootdir\").arg(dir);\n    }\n"), (XT, "    run_cmd.args(test_nodes).args(pytest_args);\n")]}, []),
    ("cmd-rf-arr", {X: [(XDIR, "    if let Some(dir) = working_dir {\n        run_cmd.current_dir(dir).args([std::ffi::OsStr::new(\"--rootdir\"), dir.as_os_str()]);\n    }\n")]}, []),
    ("cmd-rf-match", {X: [(XDIR, "    match working_dir {\n        Some(d) => {\n            run_cmd.arg(\"--rootdir\").arg(d);\n            run_cmd.current_dir(d);\n        }\n        None => {}\n    }\n")]}, []),
    ("cmd-rf-vec", {X: [("    run_cmd.args(initial_args);\n", ""), (XDIR, "    let mut all: Vec<std::ffi::OsString> = Vec::new();\n    for a in initial_args {\n        all.push(a.into());\n    }\n    if let Some(dir) = working_dir {\n        run_cmd.current_dir(dir);\n        all.push(\"--rootdir\".into());\n        all.push(dir.into());\n    }\n"), (XT, "    for t in test_nodes {\n        all.push(t.into());\n    }\n    for t in pytest_args {\n        all.push(t.into());\n    }\n    run_cmd.args(all);\n")]}, []),
    ("cmd-rf-extend", {W: [(WT + "\n" + WX, "            let mut rest = task.tests;\n            rest.extend(task.pytest_args);\n            cmd.args(rest);\n")]}, []),
    ("cmd-rf-helper", {X: [(XENV, "    set_env(&mut run_cmd, env_vars);\n"), ("/// Executes pytest with the given", "fn set_env(cmd: &mut Command, env: &[(String, String)]) {\n    for (k, v) in env {\n        cmd.env(k, v);\n    }\n}\n\n/// Executes pytest with the given")]}, []),
    ("cmd-rf-helper2", {X: [("    let mut run_cmd = Command::new(program);\n    run_cmd.args(initial_args);\n", "    let mut run_cmd = base(program, initial_args);\n"), ("/// Executes pytest with the given", "fn base(program: &str, initial: &[String]) -> Command {\n    let mut c = Command::new(program);\n    c.args(initial);\n    c\n}\n\n/// Executes pytest with the given")]}, []),
    ("cmd-rf-destruct", {W: [("            let mut cmd = Command::new(&task.program);\n", "            let WorkerTask { worker_id: _, program, initial_args, tests, pytest_args, working_dir, env_vars } = task;\n            let mut cmd = Command::new(&program);\n"), (WENV, WENV.replace("task.", "")), (WINI, WINI.replace("task.", "")), (WROOT, WROOT.replace("ref dir", "dir").replace("task.working_dir", "&working_dir")), (WT, WT.replace("task.", "")), (WX, WX.replace("task.", "")), (WCWD, WCWD.replace("task.", "")), ("worker_id: task.worker_id,", "worker_id,")]  + [("worker_id: task.worker_id,", "worker_id,")]}, []),
    ("cmd-rf-cwdfirst", {W: [(WCWD, ""), (WROOT, "            if let Some(dir) = &task.working_dir {\n                cmd.current_dir(dir).arg(\"--rootdir\").arg(dir);\n            }\n")]}, []),
    ("cmd-rf-envlast", {X: [(XENV, ""), (XT, XT + XENV)]}, []),
    ("cmd-rf-asref", {W: [(WROOT, WROOT.replace("ref dir", "dir").replace("task.working_dir", "task.working_dir.as_deref()"))]}, []),
    ("cmd-rf-eqform", {X: [(XDIR, "    if let Some(dir) = working_dir {\n        run_cmd.current_dir(dir);\n        let mut a = std::ffi::OsString::from(\"--rootdir=\");\n        a.push(dir);\n        run_cmd.arg(a);\n    }\n")]}, []),
    ("cmd-rf-adj", {R: [(ADJ, '''            let adjusted_tests = if subproject_root == config.rootpath {
                tests
            } else {
                subproject::make_test_paths_relative(&tests, config.rootpath, &subproject_root)
            };
''')]}, []),
    ("cmd-rf-adj2", {R: [(ADJ, '''            let mut adjusted_tests = tests;
            if subproject_root.as_path() != config.rootpath {
                adjusted_tests = subproject::make_test_paths_relative(&adjusted_tests, config.rootpath, &subproject_root);
            }
''')]}, []),
    ("cmd-rf-adj3", {R: [(ADJ, '''            let adjusted_tests =
                subproject::make_test_paths_relative(&tests, config.rootpath, &subproject_root);
''')]}, []),
    ("cmd-rf-task", {R: [("                    worker_pool.spawn_worker(WorkerTask {\n                        worker_id,", "                    let task = (WorkerTask {\n                        worker_id,"), ("                        env_vars: config.env_vars.to_vec(),\n                    });\n                    worker_id += 1;", "                        env_vars: config.env_vars.to_vec(),\n                    });\n                    worker_pool.spawn_worker(task);\n                    worker_id += 1;")]}, []),
    ("cmd-rf-into", {R: [("program: config.program.to_string(),", "program: config.program.into(),"), ("initial_args: config.initial_args.to_vec(),", "initial_args: config.initial_args.iter().cloned().collect(),"), ("env_vars: config.env_vars.to_vec(),", "env_vars: config.env_vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),")]}, []),
    ("cmd-rf-pe-match", penv('''env_vars
            .iter()
            .filter_map(|s| match s.split_once('=') {
                Some((k, v)) => Some((k.to_owned(), v.to_owned())),
                None => {
                    log::warn!("Invalid environment variable format: {}", s);
                    None
                }
            })
            .collect()'''), []),
    ("cmd-rf-pe-loop", penv('''{
            let mut out = Vec::with_capacity(env_vars.len());
            for s in &env_vars {
                match s.split_once('=') {
                    Some((k, v)) => out.push((k.to_string(), v.to_string())),
                    None => log::warn!("Invalid environment variable format: {}", s),
                }
            }
            out
        }'''), []),
    ("cmd-rf-pe-find", penv('''env_vars
            .iter()
            .filter_map(|s| s.find('=').map(|i| (s[..i].to_string(), s[i + 1..].to_string())))
            .collect()'''), []),
    ("cmd-rf-pe-splitn", penv('''env_vars
            .iter()
            .filter_map(|s| {
                let mut it = s.splitn(2, '=');
                match (it.next(), it.next()) {
                    (Some(k), Some(v)) => Some((k.to_string(), v.to_string())),
                    _ => None,
                }
            })
            .collect()'''), []),
    ("cmd-rf-pe-map", penv('''env_vars
            .iter()
            .filter_map(|s| s.split_once('='))
            .map(|(k, v)| (k.to_string(), v.to_string()))
            .collect()'''), []),
    ("cmd-rf-pe-fn", {R: [(SPLIT, "if let Some(pair) = parse_pair(env_str) {\n                    Some(pair)"), ("/// Execute tests in parallel across", "fn parse_pair(s: &str) -> Option<(String, String)> {\n    let (k, v) = s.split_once('=')?;\n    Some((k.to_string(), v.to_string()))\n}\n\n/// Execute tests in parallel across")]}, []),
    ("cmd-rf-pe-emptyname", {R: [(SPLIT, "if let Some((key, value)) = env_str.split_once('=').filter(|(k, _)| !k.is_empty()) {\n                    Some((key.to_string(), value.to_string()))")]}, []),
    # bugs
    ("cmd-bug-noenv", {X: [(XENV, "    let _ = env_vars;\n")]}, ["C06"]),
    ("cmd-bug-envclear", {X: [(XENV, XENV + "    if env_vars.len() > 8 {\n        run_cmd.env_clear();\n    }\n")]}, ["C06"]),
    ("cmd-bug-envskip", {X: [(XENV, "    for (key, value) in env_vars {\n        if value.is_empty() {\n            continue;\n        }\n        run_cmd.env(key, value);\n    }\n")]}, ["C06"]),
    ("cmd-bug-envset", {W: [(WENV, "            for (key, value) in task.env_vars {\n                if std::env::var_os(&key).is_none() {\n                    cmd.env(key, value);\n                }\n            }\n")]}, ["C06"]),
    ("cmd-bug-envrev", {W: [(WENV, WENV.replace("task.env_vars", "task.env_vars.into_iter().rev()"))]}, ["C06"]),
    ("cmd-bug-envtrim", {W: [(WENV, WENV.replace("cmd.env(key, value)", "cmd.env(key, value.trim())"))]}, ["C06"]),
    ("cmd-bug-envmap", {X: [(XENV, "    let vars: std::collections::HashMap<_, _> = env_vars.iter().rev().cloned().collect();\n    run_cmd.envs(vars);\n")]}, ["C06"]),
    ("cmd-bug-envswap", {X: [(XENV, XENV.replace("env(key, value)", "env(value, key)"))]}, ["C06"]),
    ("cmd-bug-hide", {W: [(WT, WT + "\n            cmd.env(\"PYTHONDONTWRITEBYTECODE\", \"1\");\n")]}, ["C06"]),
    ("cmd-bug-take", {W: [(WT, WT.replace("task.tests", "task.tests.into_iter().take(4096)"))]}, ["C06"]),
    ("cmd-bug-dedup", {X: [(XT, "    let mut seen = std::collections::HashSet::new();\n    for t in test_nodes {\n        if seen.insert(t.clone()) {\n            run_cmd.arg(t);\n        }\n    }\n    run_cmd.args(pytest_args);\n")]}, ["C06"]),
    ("cmd-bug-dashskip", {W: [(WT, "            for test in task.tests {\n                if test.starts_with('-') {\n                    continue;\n                }\n                cmd.arg(test);\n            }\n")]}, ["C06"]),
    ("cmd-bug-join", {X: [(XT, "    run_cmd.arg(test_nodes.join(\" \"));\n    run_cmd.args(pytest_args);\n")]}, ["C06"]),
    ("cmd-bug-splitws", {X: [(XT, "    run_cmd.args(test_nodes);\n    for a in &pytest_args {\n        run_cmd.args(a.split_whitespace());\n    }\n")]}, ["C06"]),
    ("cmd-bug-splitini", {W: [(WINI, "            for arg in &task.initial_args {\n                for part in arg.split(' ') {\n                    cmd.arg(part);\n                }\n            }\n")]}, ["C06"]),
    ("cmd-bug-order", {W: [(WT + "\n" + WX, WX + "\n" + WT)]}, ["C06"]),
    ("cmd-bug-noextra", {W: [(WX, "            let _ = task.pytest_args;\n")]}, ["C06"]),
    ("cmd-bug-extra-one", {W: [(WX, "            if let Some(arg) = task.pytest_args.into_iter().next() {\n                cmd.arg(arg);\n            }\n")]}, ["C06"]),
    ("cmd-bug-nodir", {W: [(WCWD, "")]}, ["C06"]),
    ("cmd-bug-noroot", {X: [(XDIR, XDIR.replace("        run_cmd.arg(\"--rootdir\");\n        run_cmd.arg(dir);\n", ""))]}, ["C06"]),
    ("cmd-bug-rootfirst", {W: [(WINI + "\n", ""), (WROOT, WROOT + "\n" + WINI)]}, ["C06"]),
    ("cmd-bug-exists", {W: [(WCWD, "            if let Some(dir) = task.working_dir.filter(|d| d.is_absolute()) {\n                cmd.current_dir(dir);\n            }\n")]}, ["C06"]),
    ("cmd-bug-parent", {X: [(XDIR, XDIR.replace("run_cmd.arg(dir);", "run_cmd.arg(dir.file_name().map(Path::new).unwrap_or(dir));"))]}, ["C06"]),
    ("cmd-bug-trim", {W: [(WT, WT.replace("cmd.arg(test)", "cmd.arg(test.trim_end())"))]}, ["C06"]),
    ("cmd-bug-prog", {X: [("Command::new(program)", "Command::new(\"python3\")"), ("    program: &str,", "    _program: &str,")]}, ["C06"]),
    ("cmd-bug-quiet", {X: [(XT, XT + "    run_cmd.arg(\"-x\");\n")]}, ["C06"]),
    ("cmd-bug-iniskip", {R: [("initial_args: config.initial_args.to_vec(),", "initial_args: config.initial_args.iter().filter(|a| !a.is_empty()).cloned().collect(),")]}, ["C06"]),
    ("cmd-bug-rootdir-all", {R: [(WD, "working_dir: Some(config.rootpath.to_path_buf()),")]}, ["C06"]),
    ("cmd-bug-adjall", {R: [(ADJ, "            let adjusted_tests = tests;\n")]}, ["C06"]),
    ("cmd-bug-adjroot", {R: [(ADJ, ADJ.replace("config.rootpath, &subproject_root)", "&subproject_root, config.rootpath)"))]}, ["C06"]),
    ("cmd-bug-envdrop", {R: [("env_vars: config.env_vars.to_vec(),\n                    });\n                    worker_id += 1;", "env_vars: if worker_id == 0 { config.env_vars.to_vec() } else { vec![] },\n                    });\n                    worker_id += 1;")]}, ["C06"]),
    ("cmd-bug-pe-split", penv('''env_vars
            .iter()
            .filter_map(|s| {
                let parts: Vec<&str> = s.split('=').collect();
                if parts.len() >= 2 {
                    Some((parts[0].to_string(), parts[1].to_string()))
                } else {
                    None
                }
            })
            .collect()'''), ["C06"]),
    ("cmd-bug-pe-two", penv('''env_vars
            .iter()
            .filter_map(|s| {
                let parts: Vec<&str> = s.split('=').collect();
                if parts.len() == 2 {
                    Some((parts[0].to_string(), parts[1].to_string()))
                } else {
                    None
                }
            })
            .collect()'''), ["C06"]),
    ("cmd-bug-pe-rsplit", {R: [(SPLIT, SPLIT.replace("split_once", "rsplit_once"))]}, ["C06"]),
    ("cmd-bug-pe-trim", {R: [(SPLIT, SPLIT.replace("key.to_string(), value.to_string()", "key.trim().to_string(), value.trim().to_string()"))]}, ["C06"]),
    ("cmd-bug-pe-emptyval", {R: [(SPLIT, "if let Some((key, value)) = env_str.split_once('=').filter(|(_, v)| !v.is_empty()) {\n                    Some((key.to_string(), value.to_string()))")]}, ["C06"]),
    ("cmd-bug-pe-upper", {R: [(SPLIT, SPLIT.replace("key.to_string()", "key.to_uppercase()"))]}, ["C06"]),
    ("cmd-bug-pe-while", penv('''env_vars
            .iter()
            .map_while(|s| s.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
            .collect()'''), ["C06"]),
    ("cmd-bug-pe-first", {R: [(SPLIT, "if env_str.starts_with('#') {\n                    None\n                } else if let Some((key, value)) = env_str.split_once('=') {\n                    Some((key.to_string(), value.to_string()))")]}, ["C06"]),
    ("cmd-bug-py-env", {O: [("args.env.clone())", "vec![])")]}, ["C06"]),
    ("cmd-bug-py-dir", {O: [("                        Some(&subproject_root),\n", "                        Some(&rootpath),\n")]}, ["C06"]),
]
