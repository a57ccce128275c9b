"""C24: refactorings that never panic stay quiet; panics on some input are reported."""
S, U, N, W, C, UT, CLI = "src/scheduler.rs", "src/subproject.rs", "src/native_runner.rs", "src/worker.rs", "src/config.rs", "src/utils.rs", "src/cli.rs"
GM = "src/collection/utils.rs"
B = {"C24"}
ok = None
VARIANTS = []


def v(name, want, f, *reps):
    VARIANTS.append(("pn-" + name, {f: list(reps)}, want if want else set()))


SHARD = "        shards[i % actual_workers].push(file);\n"
ACT = "    let actual_workers = num_workers.min(files.len());\n"
SGUARD = "    if num_workers == 0 || files.is_empty() {\n        return vec![];\n    }\n"
TRACE = "        for line in traceback.lines() {\n            println!(\"    {}\", line);\n        }\n"
NODE = "        println!(\"  {}\", result.nodeid);\n"
FNAME = "    let file_name = path.file_name().and_then(|n| n.to_str()).unwrap_or(\"\");\n"
JSON = "        let result: TestResult = serde_json::from_str(&line)\n            .map_err(|e| format!(\"Failed to parse JSON on line {}: {}\", line_num + 1, e))?;\n"
LINE = "        let line = line.map_err(|e| format!(\"Failed to read line {}: {}\", line_num + 1, e))?;\n"
CODE = "        let exit_code = output.status.code().unwrap_or(-1);\n"
SPLIT = "    match node.split_once(\"::\") {\n        Some((path, test)) => (path, Some(test)),\n        None => (node, None),\n    }\n"
EFILE = "    test_path\n        .split(\"::\")\n        .next()\n        .unwrap_or(test_path)\n        .to_string()\n"
NAME = "    let name = rest.split('[').next().unwrap_or(rest);\n"
LOADW = "        for (i, test) in tests.into_iter().enumerate() {\n            workers[i % num_workers].push(test);\n        }\n"
GUARD = "    if num_workers == 0 || tests.is_empty() {\n        return Some(vec![]);\n    }\n"
PARSE = "                _ => match s.parse::<usize>() {\n                    Ok(n) => Ok(Some(NumProcesses::Count(n))),\n                    Err(_) => Err(format!(\"Invalid number: {s}\")),\n                },\n"

# native_runner
v("shard-get", ok, N, (SHARD, "        if let Some(s) = shards.get_mut(i % actual_workers) {\n            s.push(file);\n        }\n"))
v("shard-get-unwrap", ok, N, (SHARD, "        shards.get_mut(i % actual_workers).unwrap().push(file);\n"))
v("shard-guard-len", ok, N, (SGUARD + "\n" + ACT, "    let actual_workers = num_workers.min(files.len());\n    if actual_workers == 0 {\n        return vec![];\n    }\n"))
v("shard-guard-match", ok, N, (SGUARD, "    if num_workers < 1 || files.len() < 1 {\n        return Vec::new();\n    }\n"))
v("shard-clamp", ok, N, (ACT, "    let actual_workers = num_workers.clamp(1, files.len());\n"))
v("shard-while", ok, N, (SHARD, "        let mut at = i;\n        while at >= actual_workers {\n            at -= actual_workers;\n        }\n        shards[at].push(file);\n"))
v("shard-noguard", ok, N, (SGUARD, ""))
v("shard-b-workers", B, N, (ACT, "    let actual_workers = num_workers.min(files.len());\n    let per = num_workers / (files.len() - 1);\n    log::debug!(\"{per}\");\n"))
v("shard-b-off", B, N, (SHARD, "        shards[(i + 1) % (actual_workers + 1)].push(file);\n"))
v("shard-clamp-noguard", ok, N, (SGUARD, ""), (ACT, "    let actual_workers = num_workers.clamp(1, files.len());\n"))
v("shard-b-alloc", B, N, (ACT, ACT + "    let mut sizes: Vec<usize> = Vec::with_capacity(num_workers);\n    sizes.push(files.len());\n    log::debug!(\"{:?}\", sizes);\n"))
v("shard-alloc", ok, N, (ACT, ACT + "    let mut sizes: Vec<usize> = Vec::with_capacity(actual_workers);\n    sizes.push(files.len());\n    log::debug!(\"{:?}\", sizes);\n"))
v("trace-cut-chars", ok, N, (TRACE, "        for line in traceback.lines() {\n            let line: String = line.chars().take(200).collect();\n            println!(\"    {}\", line);\n        }\n"))
v("trace-b-cut", B, N, (TRACE, "        for line in traceback.lines() {\n            let line = if line.len() > 200 { &line[..200] } else { line };\n            println!(\"    {}\", line);\n        }\n"))
v("trace-b-cut2", B, N, (TRACE, "        for line in traceback.lines() {\n            println!(\"    {}\", &line[..line.len().min(200)]);\n        }\n"))
v("trace-get", ok, N, (TRACE, "        for line in traceback.lines() {\n            println!(\"    {}\", line.get(..200).unwrap_or(line));\n        }\n"))
v("trace-b-trunc", B, N, (TRACE, "        let mut text = traceback.clone();\n        text.truncate(10_000);\n        for line in text.lines() {\n            println!(\"    {}\", line);\n        }\n"))
v("trace-boundary", ok, N, (TRACE, "        for line in traceback.lines() {\n            let mut end = line.len().min(200);\n            while !line.is_char_boundary(end) {\n                end -= 1;\n            }\n            println!(\"    {}\", &line[..end]);\n        }\n"))
v("trace-b-last", B, N, (TRACE, "        let lines: Vec<&str> = traceback.lines().collect();\n        println!(\"    {}\", lines[lines.len() - 1]);\n" + TRACE))
v("trace-last", ok, N, (TRACE, "        let lines: Vec<&str> = traceback.lines().collect();\n        if let Some(last) = lines.last() {\n            log::debug!(\"{last}\");\n        }\n        for i in 0..lines.len() {\n            println!(\"    {}\", lines[i]);\n        }\n"))
v("trace-tail", ok, N, (TRACE, "        let lines: Vec<&str> = traceback.lines().collect();\n        let from = lines.len().saturating_sub(50);\n        for line in &lines[from..] {\n            println!(\"    {}\", line);\n        }\n"))
v("trace-b-tail", B, N, (TRACE, "        let lines: Vec<&str> = traceback.lines().collect();\n        for line in &lines[lines.len() - 50..] {\n            println!(\"    {}\", line);\n        }\n"))
v("trace-tail-if", ok, N, (TRACE, "        let lines: Vec<&str> = traceback.lines().collect();\n        let lines = if lines.len() > 50 { &lines[lines.len() - 50..] } else { &lines[..] };\n        for line in lines {\n            println!(\"    {}\", line);\n        }\n"))
v("node-parts", ok, N, (NODE, "        let short = result.nodeid.rsplit(\"::\").next().unwrap();\n        log::debug!(\"{short}\");\n" + NODE))
v("node-b-parts", B, N, (NODE, "        let parts: Vec<&str> = result.nodeid.split(\"::\").collect();\n        log::debug!(\"{}\", parts[1]);\n" + NODE))
v("node-parts-len", ok, N, (NODE, "        let parts: Vec<&str> = result.nodeid.split(\"::\").collect();\n        if parts.len() >= 2 {\n            log::debug!(\"{}\", parts[1]);\n        }\n" + NODE))
v("node-parts-zero", ok, N, (NODE, "        let parts: Vec<&str> = result.nodeid.split(\"::\").collect();\n        log::debug!(\"{}\", parts[0]);\n" + NODE))
v("node-parts-last", ok, N, (NODE, "        let parts: Vec<&str> = result.nodeid.split(\"::\").collect();\n        log::debug!(\"{}\", parts[parts.len() - 1]);\n" + NODE))
v("node-b-pad", B, N, (NODE, "        println!(\"  {}{}\", result.nodeid, \".\".repeat(72 - result.nodeid.len()));\n"))
v("node-pad", ok, N, (NODE, "        let pad = 72usize.saturating_sub(result.nodeid.len());\n        log::debug!(\"{}\", \".\".repeat(pad));\n" + NODE))
v("node-b-find", B, N, (NODE, "        let at = result.nodeid.find(\"::\").unwrap();\n        log::debug!(\"{}\", &result.nodeid[at..]);\n" + NODE))
v("node-find", ok, N, (NODE, "        if let Some(at) = result.nodeid.find(\"::\") {\n            log::debug!(\"{}\", &result.nodeid[at..]);\n        }\n" + NODE))
v("node-find2", ok, N, (NODE, "        if let Some(at) = result.nodeid.find(\"::\") {\n            log::debug!(\"{}\", &result.nodeid[at + 2..]);\n        }\n" + NODE))
v("node-b-find3", B, N, (NODE, "        if let Some(at) = result.nodeid.find(\"::\") {\n            log::debug!(\"{}\", &result.nodeid[at + 3..]);\n        }\n" + NODE))
v("name-b-str", B, N, (FNAME, "    let file_name = path.file_name().and_then(|n| n.to_str()).unwrap();\n"))
v("name-b-expect", B, N, (FNAME, "    let file_name = path.file_name().unwrap_or_default().to_str().expect(\"file names are text\");\n"))
v("name-match", ok, N, (FNAME, "    let Some(file_name) = path.file_name().and_then(|n| n.to_str()) else {\n        return false;\n    };\n"))
v("name-lossy", ok, N, (FNAME, "    let lossy = path.file_name().unwrap_or_default().to_string_lossy();\n    let file_name: &str = &lossy;\n"))
v("ext-unwrap", ok, N, ("    if path.extension().is_none_or(|ext| ext != \"py\") {", "    if path.extension().is_none() || path.extension().unwrap() != \"py\" {"))
v("ext-b-unwrap", B, N, ("    if path.extension().is_none_or(|ext| ext != \"py\") {", "    if path.extension().unwrap() != \"py\" {"))
v("json-b-unwrap", B, N, (JSON, "        let result: TestResult = serde_json::from_str(&line).unwrap();\n"))
v("json-b-expect", B, N, (JSON, "        let result: TestResult = serde_json::from_str(line.trim()).expect(\"workers write valid JSON\");\n"))
v("json-match", ok, N, (JSON, "        let result: TestResult = match serde_json::from_str(&line) {\n            Ok(result) => result,\n            Err(e) => return Err(format!(\"Failed to parse JSON on line {}: {}\", line_num + 1, e)),\n        };\n"))
v("json-is-err", ok, N, (JSON, "        let parsed: Result<TestResult, serde_json::Error> = serde_json::from_str(&line);\n        if parsed.is_err() {\n            return Err(format!(\"Failed to parse JSON on line {}: {}\", line_num + 1, parsed.unwrap_err()));\n        }\n        let result = parsed.unwrap();\n"))
v("line-b-unwrap", B, N, (LINE, "        let line = line.unwrap();\n"))
v("line-b-first", B, N, ("        if line.trim().is_empty() {\n            continue;\n        }\n", "        if line.as_bytes()[0] == b'#' || line.trim().is_empty() {\n            continue;\n        }\n"))
v("line-first", ok, N, ("        if line.trim().is_empty() {\n            continue;\n        }\n", "        if line.trim().is_empty() || line.as_bytes().first().is_none() {\n            continue;\n        }\n"))
v("code-b-unwrap", B, N, (CODE, "        let exit_code = output.status.code().unwrap();\n"))
v("code-match", ok, N, (CODE, "        let exit_code = match output.status.code() {\n            Some(code) => code,\n            None => -1,\n        };\n"))
v("err-b-utf8", B, N, ("                let stderr = String::from_utf8_lossy(&output.stderr);\n", "                let stderr = String::from_utf8(output.stderr.clone()).unwrap();\n"))
v("err-b-str", B, N, ("                let stderr = String::from_utf8_lossy(&output.stderr);\n", "                let stderr = std::str::from_utf8(&output.stderr).expect(\"utf-8\");\n"))
v("walk-b-unwrap", B, N, ("        .filter_map(|e| e.ok())\n", "        .map(|e| e.unwrap())\n"))
v("hidden-b-str", B, N, ("                    .to_str()\n                    .map(|n| !is_hidden_or_ignored(n))\n                    .unwrap_or(false)\n", "                    .to_str()\n                    .map(|n| !is_hidden_or_ignored(n))\n                    .unwrap()\n"))
v("hidden-b-byte", B, N, ("    name.starts_with('.') || name == \"__pycache__\"\n", "    &name[..1] == \".\" || name == \"__pycache__\"\n"))
v("hidden-char", ok, N, ("    name.starts_with('.') || name == \"__pycache__\"\n", "    name.chars().next().is_some_and(|c| c == '.') || name == \"__pycache__\"\n"))
v("run-b-spawn", B, N, ("    let output = cmd\n        .output()\n        .map_err(|e| format!(\"Worker {} failed to start: {}\", worker_id, e))?;\n", "    let output = cmd.output().expect(\"the interpreter runs\");\n"))
v("tmp-b-unwrap", B, N, ("    let temp_dir = match TempDir::with_prefix(\"rtest-\") {\n        Ok(dir) => dir,\n        Err(e) => {\n            eprintln!(\"Failed to create temp directory: {}\", e);\n            return 1;\n        }\n    };\n", "    let temp_dir = TempDir::with_prefix(\"rtest-\").unwrap();\n"))
v("dur-b-secs", B, N, ("    let duration_secs = results.total_duration_ms / 1000.0;\n", "    let duration_secs = std::time::Duration::from_secs_f64(results.total_duration_ms / 1000.0).as_secs_f64();\n"))
v("avg-b", B, N, ("    let duration_secs = results.total_duration_ms / 1000.0;\n", "    let duration_secs = results.total_duration_ms / 1000.0;\n    let rate = results.passed * 100 / results.total;\n    log::debug!(\"{rate}%\");\n"))
v("avg", ok, N, ("    let duration_secs = results.total_duration_ms / 1000.0;\n", "    let duration_secs = results.total_duration_ms / 1000.0;\n    if results.total > 0 {\n        let rate = results.passed * 100 / results.total;\n        log::debug!(\"{rate}%\");\n    }\n"))
v("avg-checked", ok, N, ("    let duration_secs = results.total_duration_ms / 1000.0;\n", "    let duration_secs = results.total_duration_ms / 1000.0;\n    let rate = (results.passed * 100).checked_div(results.total).unwrap_or(0);\n    log::debug!(\"{rate}%\");\n"))
v("join-b", B, N, ("            Ok(Err(e)) => worker_errors.push(format!(\"Worker {}: {}\", i, e)),\n", "            Ok(Err(e)) => panic!(\"Worker {}: {}\", i, e),\n"))
v("outcome-b", B, N, ("                _ => {\n                    aggregated.error += 1;\n                    aggregated.errors.push(result);\n                }\n", "                other => unreachable!(\"unknown outcome {other}\"),\n"))
v("path-b-strip", B, N, ("        .map(|e| e.into_path())\n", "        .map(|e| e.path().strip_prefix(\".\").unwrap().to_path_buf())\n"))
v("min-b", B, N, ("    test_files.sort();\n", "    test_files.sort();\n    log::debug!(\"first {:?}\", test_files[0]);\n"))
v("min", ok, N, ("    test_files.sort();\n", "    test_files.sort();\n    if !test_files.is_empty() {\n        log::debug!(\"first {:?}\", test_files[0]);\n    }\n"))
v("dedup-windows", ok, N, ("    test_files.dedup();\n", "    let twice = test_files.windows(2).filter(|w| w[0] == w[1]).count();\n    log::debug!(\"{twice}\");\n    test_files.dedup();\n"))
# subproject
v("split-find", ok, U, (SPLIT, "    match node.find(\"::\") {\n        Some(at) => (&node[..at], Some(&node[at + 2..])),\n        None => (node, None),\n    }\n"))
v("split-b-find", B, U, (SPLIT, "    match node.find(':') {\n        Some(at) => (&node[..at], Some(&node[at + 2..])),\n        None => (node, None),\n    }\n"))
v("split-parts", ok, U, (SPLIT, "    let mut parts = node.splitn(2, \"::\");\n    (parts.next().unwrap(), parts.next())\n"))
v("split-b-parts", B, U, (SPLIT, "    let parts: Vec<&str> = node.splitn(2, \"::\").collect();\n    (parts[0], Some(parts[1]))\n"))
v("split-parts-len", ok, U, (SPLIT, "    let parts: Vec<&str> = node.splitn(2, \"::\").collect();\n    if parts.len() == 2 {\n        (parts[0], Some(parts[1]))\n    } else {\n        (node, None)\n    }\n"))
v("split-contains", ok, U, (SPLIT, "    if node.contains(\"::\") {\n        let (path, test) = node.split_once(\"::\").unwrap();\n        return (path, Some(test));\n    }\n    (node, None)\n"))
v("split-b-contains", B, U, (SPLIT, "    if node.contains(':') {\n        let (path, test) = node.split_once(\"::\").unwrap();\n        return (path, Some(test));\n    }\n    (node, None)\n"))
v("split-slice-pat", ok, U, (SPLIT, "    let parts: Vec<&str> = node.splitn(2, \"::\").collect();\n    match parts.as_slice() {\n        [path, test] => (path, Some(test)),\n        _ => (node, None),\n    }\n"))
v("canon-b", B, U, ("    let test_path = match test_path.canonicalize() {\n        Ok(path) if path.starts_with(rootpath) => path,\n        _ => return rootpath.to_path_buf(),\n    };\n", "    let test_path = test_path.canonicalize().unwrap();\n    if !test_path.starts_with(rootpath) {\n        return rootpath.to_path_buf();\n    }\n"))
v("canon-match", ok, U, ("    let test_path = match test_path.canonicalize() {\n        Ok(path) if path.starts_with(rootpath) => path,\n        _ => return rootpath.to_path_buf(),\n    };\n", "    let resolved = test_path.canonicalize();\n    if resolved.is_err() || !resolved.as_ref().unwrap().starts_with(rootpath) {\n        return rootpath.to_path_buf();\n    }\n    let test_path = resolved.unwrap();\n"))
v("rel-starts", ok, U, ("                Err(_) => absolute_path.canonicalize().ok().and_then(|resolved| {\n                    resolved.strip_prefix(new_base).map(Path::to_path_buf).ok()\n                }),\n", "                Err(_) => absolute_path.canonicalize().ok().and_then(|resolved| {\n                    if !resolved.starts_with(new_base) {\n                        return None;\n                    }\n                    Some(resolved.strip_prefix(new_base).unwrap().to_path_buf())\n                }),\n"))
v("rel-b-str", B, U, ("relative_path.to_string_lossy().into_owned();", "relative_path.to_str().unwrap().to_string();"))
# scheduler
v("file-index", ok, S, (EFILE, "    match test_path.find(\"::\") {\n        Some(i) => test_path[..i].to_string(),\n        None => test_path.to_string(),\n    }\n"))
v("file-next-unwrap", ok, S, (EFILE, "    test_path.split(\"::\").next().unwrap().to_string()\n"))
v("file-b-once", B, S, (EFILE, "    test_path.split_once(\"::\").unwrap().0.to_string()\n"))
v("file-b-rfind", B, S, (EFILE, "    let end = test_path.rfind(\".py\").expect(\"a test is in a Python file\") + 3;\n    test_path[..end].to_string()\n"))
v("file-get0", ok, S, (EFILE, "    let parts: Vec<&str> = test_path.split(\"::\").collect();\n    parts[0].to_string()\n"))
v("file-trunc", ok, S, (EFILE, "    let mut file = test_path.to_string();\n    if let Some(at) = file.find(\"::\") {\n        file.truncate(at);\n    }\n    file\n"))
v("scope-name", ok, S, (NAME, "    let name = &rest[..rest.find('[').unwrap_or(rest.len())];\n"))
v("scope-b-name", B, S, (NAME, "    let name = &rest[..rest.find('[').unwrap_or(rest.len() - 1)];\n"))
v("scope-name-next", ok, S, (NAME, "    let name = rest.split('[').next().unwrap();\n"))
v("scope-b-bracket", B, S, (NAME, "    let name = if rest.ends_with(']') { &rest[..rest.find('[').unwrap()] } else { rest };\n"))
v("scope-bracket", ok, S, (NAME, "    let name = if rest.contains('[') { &rest[..rest.find('[').unwrap()] } else { rest };\n"))
v("guard-b", B, S, (GUARD, "    if tests.is_empty() {\n        return Some(vec![]);\n    }\n"))
v("load-cycle", ok, S, (LOADW, "        for (i, test) in tests.into_iter().enumerate() {\n            let at = i % num_workers;\n            match workers.get_mut(at) {\n                Some(w) => w.push(test),\n                None => unreachable!(),\n            }\n        }\n"))
v("load-b-chunks", B, S, (LOADW, "        let size = tests.len() / (num_workers * 2);\n        for (i, chunk) in tests.chunks(size).enumerate() {\n            workers[i % num_workers].extend(chunk.iter().cloned());\n        }\n"))
v("load-chunks-max", ok, S, (LOADW, "        let size = (tests.len() / (num_workers * 2)).max(1);\n        for (i, chunk) in tests.chunks(size).enumerate() {\n            workers[i % num_workers].extend(chunk.iter().cloned());\n        }\n"))
v("load-b-index", B, S, (LOADW, "        let per = tests.len() / num_workers;\n        for (i, test) in tests.into_iter().enumerate() {\n            workers[i / per].push(test);\n        }\n"))
v("load-index-min", ok, S, (LOADW, "        let per = (tests.len() / num_workers).max(1);\n        for (i, test) in tests.into_iter().enumerate() {\n            workers[(i / per).min(num_workers - 1)].push(test);\n        }\n"))
v("groups-b", B, S, ("    for (i, group) in groups.into_iter().enumerate() {\n        workers[i % num_workers].extend(group);\n", "    for (i, group) in groups.into_iter().enumerate() {\n        workers[i].extend(group);\n"), ("    let num_workers = num_workers.min(groups.len());\n", "    let num_workers = num_workers.min(groups.len()).min(64);\n"))
v("groups-max", ok, S, ("    let num_workers = num_workers.min(groups.len());\n", "    let num_workers = num_workers.max(1).min(groups.len().max(1));\n"))
# config
v("conf-b-toml", B, C, ("    let toml_value: Value = match toml::from_str(&content) {\n        Ok(value) => value,\n        Err(e) => {\n            debug!(\"Failed to parse pyproject.toml: {e}\");\n            return PytestConfig::default();\n        }\n    };\n", "    let toml_value: Value = toml::from_str(&content).unwrap();\n"))
v("conf-b-index", B, C, ("        .get(\"tool\")\n        .and_then(|t| t.get(\"pytest\"))\n", "        .get(\"tool\")\n        .map(|t| &t[\"pytest\"])\n"))
v("conf-b-str", B, C, ("                .filter_map(|v| v.as_str())\n", "                .map(|v| v.as_str().unwrap())\n"))
v("conf-b-read", B, C, ("    let content = match std::fs::read_to_string(&pyproject_path) {\n        Ok(content) => content,\n        Err(e) => {\n            debug!(\"Failed to read pyproject.toml: {e}\");\n            return PytestConfig::default();\n        }\n    };\n", "    let content = std::fs::read_to_string(&pyproject_path).expect(\"pyproject.toml is readable\");\n"))
v("conf-b-table", B, C, ("        .and_then(|p| p.get(\"ini_options\"));\n", "        .and_then(|p| p.as_table().unwrap().get(\"ini_options\"));\n"))
v("conf-table", ok, C, ("        .and_then(|p| p.get(\"ini_options\"));\n", "        .and_then(|p| p.as_table())\n        .and_then(|p| p.get(\"ini_options\"));\n"))
v("conf-some", ok, C, ("    if let Some(testpaths) = ini_options\n        .and_then(|i| i.get(\"testpaths\"))\n        .and_then(setting_values)\n    {\n", "    let found = ini_options\n        .and_then(|i| i.get(\"testpaths\"))\n        .and_then(setting_values);\n    if found.is_some() {\n        let testpaths = found.unwrap();\n"))
# cli, utils
v("cli-b-parse", B, CLI, (PARSE, "                _ => Ok(Some(NumProcesses::Count(s.parse::<usize>().unwrap()))),\n"))
v("cli-b-digits", B, CLI, (PARSE, "                _ if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) => Ok(Some(NumProcesses::Count(s.parse().unwrap()))),\n                _ => Err(format!(\"Invalid number: {s}\")),\n"))
v("cli-map", ok, CLI, (PARSE, "                _ => s.parse::<usize>().map(|n| Some(NumProcesses::Count(n))).map_err(|_| format!(\"Invalid number: {s}\")),\n"))
v("cli-is-ok", ok, CLI, (PARSE, "                _ => {\n                    let n = s.parse::<usize>();\n                    if n.is_ok() {\n                        Ok(Some(NumProcesses::Count(n.unwrap())))\n                    } else {\n                        Err(format!(\"Invalid number: {s}\"))\n                    }\n                }\n"))
v("cli-b-dist", B, CLI, ("        match self.dist.parse::<crate::scheduler::DistributionMode>() {\n            Ok(_) => Ok(()),\n            Err(e) => Err(e.to_string()),\n        }\n", "        self.dist.parse::<crate::scheduler::DistributionMode>().unwrap();\n        Ok(())\n"))
v("utils-b-clamp", B, UT, ("        Some(max) => desired.min(max),\n", "        Some(max) => desired.clamp(1, max),\n"))
v("utils-clamp", ok, UT, ("        Some(max) => desired.min(max),\n", "        Some(max) => desired.clamp(0, max),\n"))
v("utils-b-sub", B, UT, ("        Some(max) => desired.min(max),\n", "        Some(max) => desired - (desired - max),\n"))
v("utils-sub", ok, UT, ("        Some(max) => desired.min(max),\n", "        Some(max) => desired - desired.saturating_sub(max),\n"))
