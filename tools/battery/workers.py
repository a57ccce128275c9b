U, C, R, N, S, P = "src/utils.rs", "src/cli.rs", "src/runner.rs", "src/native_runner.rs", "src/scheduler.rs", "src/pyo3.rs"
CAPB = '''    let desired = match num_processes {
        Some(NumProcesses::Auto) => num_cpus::get_physical(),
        Some(NumProcesses::Logical) => num_cpus::get(),
        Some(NumProcesses::Count(n)) => n,
        None => 1,
    };

    match max_processes {
        Some(max) => desired.min(max),
        None => desired,
    }
'''
PARSEB = '''        match &self.numprocesses {
            None => Ok(None),
            Some(s) => match s.as_str() {
                "auto" => Ok(Some(NumProcesses::Auto)),
                "logical" => Ok(Some(NumProcesses::Logical)),
                _ => match s.parse::<usize>() {
                    Ok(n) => Ok(Some(NumProcesses::Count(n))),
                    Err(_) => Err(format!("Invalid number: {s}")),
                },
            },
        }
'''
WC = "    let worker_count = config.worker_count.max(1);\n"
NW = "    let num_workers = config.num_workers.max(1);\n"
SH = '''    let actual_workers = num_workers.min(files.len());
    let mut shards: Vec<Vec<PathBuf>> = (0..actual_workers).map(|_| Vec::new()).collect();

    for (i, file) in files.into_iter().enumerate() {
        shards[i % actual_workers].push(file);
    }

    shards.into_iter().filter(|s| !s.is_empty()).collect()
'''
LOAD = '''        let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];

        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
'''
NEWP = '''    let worker_count = determine_worker_count(num_processes, args.maxprocesses);
'''


def cap(t):
    return {U: [(CAPB, t)]}


def parse(t):
    return {C: [(PARSEB, t)]}


VARIANTS = [
    ("wk-rf-cap-if", cap('''    let desired = match num_processes {
        None => 1,
        Some(NumProcesses::Count(n)) => n,
        Some(NumProcesses::Auto) => num_cpus::get_physical(),
        Some(NumProcesses::Logical) => num_cpus::get(),
    };
    if let Some(max) = max_processes {
        if desired > max {
            return max;
        }
    }
    desired
'''), []),
    ("wk-rf-cap-mapor", cap('''    let desired = num_processes.map_or(1, |n| match n {
        NumProcesses::Auto => num_cpus::get_physical(),
        NumProcesses::Logical => num_cpus::get(),
        NumProcesses::Count(n) => n,
    });
    max_processes.map_or(desired, |max| desired.min(max))
'''), []),
    ("wk-rf-cap-unwrap", cap('''    let desired = match num_processes {
        Some(NumProcesses::Auto) => num_cpus::get_physical(),
        Some(NumProcesses::Logical) => num_cpus::get(),
        Some(NumProcesses::Count(n)) => n,
        None => 1,
    };
    desired.min(max_processes.unwrap_or(usize::MAX))
'''), []),
    ("wk-rf-cap-std", cap('''    let desired = match num_processes {
        Some(NumProcesses::Auto) => num_cpus::get_physical(),
        Some(NumProcesses::Logical) => num_cpus::get(),
        Some(NumProcesses::Count(n)) => n,
        None => 1,
    };
    std::cmp::min(desired, max_processes.unwrap_or(desired)).max(1)
'''), []),
    ("wk-rf-cap-early", cap('''    let desired = match num_processes {
        Some(NumProcesses::Auto) => num_cpus::get_physical(),
        Some(NumProcesses::Logical) => num_cpus::get(),
        Some(NumProcesses::Count(n)) => n,
        None => 1,
    };
    let Some(max) = max_processes else { return desired };
    match desired.cmp(&max) {
        std::cmp::Ordering::Greater => max,
        _ => desired,
    }
'''), []),
    ("wk-rf-cap-helper", {U: [(CAPB, '''    let desired = requested(num_processes);

    match max_processes {
        Some(max) => desired.min(max),
        None => desired,
    }
'''), ("#[cfg(test)]\n", '''fn requested(num_processes: Option<NumProcesses>) -> usize {
    match num_processes {
        Some(NumProcesses::Auto) => num_cpus::get_physical(),
        Some(NumProcesses::Logical) => num_cpus::get(),
        Some(NumProcesses::Count(n)) => n,
        None => 1,
    }
}

#[cfg(test)]
''')]}, []),
    ("wk-rf-parse-q", parse('''        let Some(s) = &self.numprocesses else {
            return Ok(None);
        };
        let n = match s.as_str() {
            "auto" => NumProcesses::Auto,
            "logical" => NumProcesses::Logical,
            other => NumProcesses::Count(other.parse().map_err(|_| format!("Invalid number: {s}"))?),
        };
        Ok(Some(n))
'''), []),
    ("wk-rf-parse-transpose", parse('''        self.numprocesses
            .as_deref()
            .map(|s| match s {
                "auto" => Ok(NumProcesses::Auto),
                "logical" => Ok(NumProcesses::Logical),
                _ => s.parse::<usize>().map(NumProcesses::Count).map_err(|_| format!("Invalid number: {s}")),
            })
            .transpose()
'''), []),
    ("wk-rf-parse-if", parse('''        match self.numprocesses.as_ref() {
            Some(s) if s == "auto" => Ok(Some(NumProcesses::Auto)),
            Some(s) if s == "logical" => Ok(Some(NumProcesses::Logical)),
            Some(s) => {
                if let Ok(n) = s.parse::<usize>() {
                    Ok(Some(NumProcesses::Count(n)))
                } else {
                    Err(format!("Invalid number: {s}"))
                }
            }
            None => Ok(None),
        }
'''), []),
    ("wk-rf-parse-msg", parse(PARSEB.replace('Err(_) => Err(format!("Invalid number: {s}"))', 'Err(e) => Err(format!("Invalid number of processes {s:?}: {e}"))')), []),
    ("wk-rf-runner-if", {R: [(WC, '''    let worker_count = if config.worker_count == 0 {
        1
    } else {
        config.worker_count
    };
''')]}, []),
    ("wk-rf-runner-std", {R: [(WC, "    let worker_count = std::cmp::max(1, config.worker_count);\n")]}, []),
    ("wk-rf-runner-len", {R: [(WC, "    let worker_count = config.worker_count.min(test_nodes.len()).max(1);\n")]}, []),
    ("wk-rf-runner-match", {R: [(WC, "    let worker_count = match config.worker_count {\n        0 => 1,\n        n => n,\n    };\n")]}, []),
    ("wk-rf-native-if", {N: [(NW, '''    let num_workers = if config.num_workers < 1 { 1 } else { config.num_workers };
''')]}, []),
    ("wk-rf-native-len", {N: [(NW, '''    let num_workers = config.num_workers.clamp(1, test_files.len());
''')]}, []),
    ("wk-rf-shards", {N: [(SH, '''    let actual_workers = num_workers.min(files.len());
    let mut shards: Vec<Vec<PathBuf>> = vec![Vec::new(); actual_workers];
    let mut next = 0;
    for file in files {
        shards[next].push(file);
        next = (next + 1) % actual_workers;
    }
    shards
''')]}, []),
    ("wk-rf-shards-chunks", {N: [(SH, '''    let size = files.len().div_ceil(num_workers);
    files.chunks(size).map(|c| c.to_vec()).collect()
''')]}, []),
    ("wk-rf-seq", {P: [("if worker_count == 1 || args.dist == \"no\"", "if args.dist == \"no\" || worker_count <= 1")]}, []),
    ("wk-rf-seq-match", {P: [("let exit_code = if worker_count == 1 || args.dist == \"no\" {", "let single = worker_count == 1 || args.dist == \"no\";\n            let exit_code = if single {")]}, []),
    ("wk-rf-wire", {P: [(NEWP, '''    let max = args.maxprocesses;
    let worker_count = determine_worker_count(num_processes, max).max(1);
''')]}, []),
    # bugs
    ("wk-bug-cap-auto", cap(CAPB.replace("Some(max) => desired.min(max),", "Some(max) if desired > 1 => desired.min(max),").replace("None => desired,", "_ => desired,")), []),
    ("wk-bug-cap-only-auto", cap('''    match num_processes {
        Some(NumProcesses::Auto) => num_cpus::get_physical().min(max_processes.unwrap_or(usize::MAX)),
        Some(NumProcesses::Logical) => num_cpus::get(),
        Some(NumProcesses::Count(n)) => max_processes.map_or(n, |m| n.min(m)),
        None => 1,
    }
'''), ["C07"]),
    ("wk-bug-cap-cpus", cap(CAPB.replace("Some(NumProcesses::Count(n)) => n,", "Some(NumProcesses::Count(n)) => n.min(num_cpus::get().max(16)),")), ["C07"]),
    ("wk-bug-cap-zero", cap(CAPB.replace("Some(max) => desired.min(max),", "Some(0) => desired,\n        Some(max) => desired.min(max),")), ["C07"]),
    ("wk-bug-cap-off", cap(CAPB.replace("Some(max) => desired.min(max),", "Some(max) if desired > max + 1 => max,\n        Some(_) => desired,")), ["C07"]),
    ("wk-bug-cap-swap", cap(CAPB.replace("get_physical()", "get()")), ["C07"]),
    ("wk-bug-cap-max", cap('''    let desired = match num_processes {
        Some(NumProcesses::Auto) => num_cpus::get_physical(),
        Some(NumProcesses::Logical) => num_cpus::get(),
        Some(NumProcesses::Count(n)) => n,
        None => max_processes.unwrap_or(1),
    };
    max_processes.map_or(desired, |m| desired.min(m))
'''), ["C07"]),
    ("wk-bug-parse-default", parse(PARSEB.replace('Err(_) => Err(format!("Invalid number: {s}"))', 'Err(_) if s.starts_with(\'-\') => Ok(None),\n                    Err(_) => Err(format!("Invalid number: {s}"))')), ["C07"]),
    ("wk-bug-parse-overflow", parse(PARSEB.replace('Err(_) => Err(format!("Invalid number: {s}"))', '''Err(e) => match e.kind() {
                        std::num::IntErrorKind::PosOverflow => Ok(Some(NumProcesses::Count(usize::MAX))),
                        _ => Err(format!("Invalid number: {s}")),
                    }''')), ["C07"]),
    ("wk-bug-parse-u8", parse(PARSEB.replace("s.parse::<usize>()", "s.parse::<u8>()").replace("Count(n)", "Count(n as usize)")), ["C07"]),
    ("wk-bug-parse-i", parse(PARSEB.replace("s.parse::<usize>()", "s.parse::<isize>()").replace("Count(n)", "Count(n.unsigned_abs())")), ["C07"]),
    ("wk-bug-parse-trim", parse(PARSEB.replace("s.parse::<usize>()", "s.trim_end_matches(|c: char| !c.is_ascii_digit()).parse::<usize>()")), ["C07"]),
    ("wk-bug-parse-empty", parse(PARSEB.replace("            None => Ok(None),\n", "            None => Ok(None),\n            Some(s) if s.is_empty() => Ok(None),\n")), ["C07"]),
    ("wk-bug-parse-zero", parse(PARSEB.replace("Ok(n) => Ok(Some(NumProcesses::Count(n))),", "Ok(0) => Ok(Some(NumProcesses::Auto)),\n                    Ok(n) => Ok(Some(NumProcesses::Count(n))),")), ["C07"]),
    ("wk-bug-parse-prefix", parse(PARSEB.replace('"auto" => ', 'a if a.starts_with("auto") => ')), ["C07"]),
    ("wk-bug-parse-case", parse(PARSEB.replace("match s.as_str()", "match s.to_lowercase().as_str()")), ["C07"]),
    ("wk-bug-default", {C: [('#[arg(long, short = \'n\', alias = "numprocesses")]', '#[arg(long, short = \'n\', alias = "numprocesses", default_value = "auto")]')]}, ["C07"]),
    ("wk-bug-env", {C: [('''    #[arg(long)]
    pub maxprocesses''', '''    #[arg(long, default_value = "8")]
    pub maxprocesses''')]}, ["C07"]),
    ("wk-bug-runner-none", {R: [(WC, "    let worker_count = config.worker_count;\n")]}, ["C07"]),
    ("wk-bug-runner-return", {R: [(WC, "    if config.worker_count == 0 {\n        log::warn!(\"No workers\");\n        return 0;\n    }\n    let worker_count = config.worker_count;\n")]}, ["C07"]),
    ("wk-bug-runner-min2", {R: [(WC, "    let worker_count = config.worker_count.max(2);\n")]}, ["C07"]),
    ("wk-bug-runner-cpus", {R: [(WC, "    let worker_count = config.worker_count.max(1).min(64);\n")]}, ["C07"]),
    ("wk-bug-native-none", {N: [(NW, "    let num_workers = config.num_workers;\n")]}, ["C07"]),
    ("wk-bug-native-files", {N: [(NW, "    let num_workers = if test_files.len() > 100 { test_files.len() / 50 } else { config.num_workers.max(1) };\n")]}, ["C07"]),
    ("wk-bug-shards-chunks", {N: [(SH, '''    let size = (files.len() / num_workers).max(1);
    files.chunks(size).map(|c| c.to_vec()).collect()
''')]}, ["C07", "C08"]),
    ("wk-bug-load-chunks", {S: [(LOAD, '''        let size = (tests.len() / num_workers).max(1);
        tests.chunks(size).map(|c| c.to_vec()).collect()
''')]}, ["C07", "C01"]),
    ("wk-bug-seq", {P: [("if worker_count == 1 || args.dist == \"no\"", "if worker_count <= 2 || args.dist == \"no\"")]}, ["C07"]),
    ("wk-bug-wire-max", {P: [(NEWP, "    let worker_count = determine_worker_count(num_processes, None);\n")]}, ["C07"]),
    ("wk-bug-wire-native", {P: [("num_workers: worker_count,", "num_workers: num_cpus::get(),")]}, ["C07"]),
    ("wk-bug-cap-native", {P: [("num_workers: worker_count,", "num_workers: worker_count.min(8),")]}, ["C07"]),
    ("wk-rf-envopt", {C: [("    #[arg(long, short)]\n    pub env", "    #[arg(short = 'e', long = \"env\", value_name = \"KEY=VALUE\", action = clap::ArgAction::Append)]\n    pub env")]}, []),
    ("wk-bug-envopt", {C: [("    #[arg(long, short)]\n    pub env", "    #[arg(long, short, value_delimiter = ',')]\n    pub env")]}, ["C06"]),
    ("wk-rf-groups-few", {S: [("    let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();\n\n    for (i, group)", "    if groups.len() <= num_workers {\n        return groups;\n    }\n    let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();\n\n    for (i, group)")]}, []),
    ("wk-rf-load-few", {S: [(LOAD, "        if num_workers >= tests.len() {\n            return tests.into_iter().map(|t| vec![t]).collect();\n        }\n" + LOAD)]}, []),
    ("wk-bug-load-few", {S: [(LOAD, "        if num_workers + 4 >= tests.len() {\n            return tests.into_iter().map(|t| vec![t]).collect();\n        }\n" + LOAD)]}, ["C01", "C07"]),
    ("wk-rf-shards-few", {N: [(SH, "    if files.len() <= num_workers {\n        return files.into_iter().map(|f| vec![f]).collect();\n    }\n" + SH)]}, []),
    ("wk-rf-shards-one", {N: [(SH, "    if num_workers == 1 {\n        return vec![files];\n    }\n" + SH)]}, []),
]
