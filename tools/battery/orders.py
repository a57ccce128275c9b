S, U, N, W, R, D = "src/scheduler.rs", "src/subproject.rs", "src/native_runner.rs", "src/worker.rs", "src/runner.rs", "src/collection/nodes.rs"
VARIANTS = []
ok, B = set(), {"C25"}


def v(name, want, f, *edits):
    fs = {}
    for e in edits:
        if len(e) == 3:
            fs.setdefault(e[0], []).append(e[1:])
        else:
            fs.setdefault(f, []).append(e)
    VARIANTS.append(("od-" + name, fs, set(want)))


GNEW = "    let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();\n"
HNEW = "    let mut groups: std::collections::HashMap<String, Vec<String>> = std::collections::HashMap::new();\n"
GVAL = "    groups.into_values().collect()\n"
UNUSED = ("use std::collections::BTreeMap;\n", "#[allow(unused_imports)]\nuse std::collections::BTreeMap;\n")
v("h-sorted", ok, S, UNUSED, (GNEW, HNEW), (GVAL, '''    let mut found: Vec<(String, Vec<String>)> = groups.into_iter().collect();
    found.sort();
    found.into_iter().map(|(_, g)| g).collect()
'''))
v("h-sort-key", ok, S, UNUSED, (GNEW, HNEW), (GVAL, '''    let mut found: Vec<(String, Vec<String>)> = groups.into_iter().collect();
    found.sort_by(|a, b| a.0.cmp(&b.0));
    found.into_iter().map(|(_, g)| g).collect()
'''))
v("h-sort-key2", ok, S, UNUSED, (GNEW, HNEW), (GVAL, '''    let mut found: Vec<(String, Vec<String>)> = groups.into_iter().collect();
    found.sort_by_key(|(k, _)| k.clone());
    found.into_iter().map(|(_, g)| g).collect()
'''))
v("h-keys-sorted", ok, S, UNUSED, (GNEW, HNEW), (GVAL, '''    let mut keys: Vec<String> = groups.keys().cloned().collect();
    keys.sort();
    keys.iter().filter_map(|k| groups.remove(k)).collect()
'''))
v("h-to-btree", ok, S, (GNEW, HNEW), (GVAL, '''    let sorted: BTreeMap<String, Vec<String>> = groups.into_iter().collect();
    sorted.into_values().collect()
'''))
v("h-index", ok, S, UNUSED, (GNEW, "    let mut index: std::collections::HashMap<String, usize> = std::collections::HashMap::new();\n    let mut groups: Vec<Vec<String>> = Vec::new();\n"),
  ("        groups.entry(key).or_default().push(test);\n", '''        let at = *index.entry(key).or_insert_with(|| {
            groups.push(Vec::new());
            groups.len() - 1
        });
        groups[at].push(test);
'''), (GVAL, "    groups\n"))
v("h-values-sorted", ok, S, UNUSED, (GNEW, HNEW), (GVAL, "    let mut all: Vec<Vec<String>> = groups.into_values().collect();\n    all.sort();\n    all\n"))
v("h-values-first", ok, S, UNUSED, (GNEW, HNEW), (GVAL, "    let mut all: Vec<Vec<String>> = groups.into_values().collect();\n    all.sort_by(|a, b| a[0].cmp(&b[0]));\n    all\n"))
v("set-seen", ok, N, ("    test_files.dedup();\n", "    let mut seen = std::collections::HashSet::new();\n    test_files.retain(|f| seen.insert(f.clone()));\n"))
v("walk-name", ok, N, ("    WalkDir::new(dir)\n        .into_iter()", "    WalkDir::new(dir)\n        .sort_by_file_name()\n        .into_iter()"))
v("sort-unstable", ok, N, ("    test_files.sort();\n", "    test_files.sort_unstable();\n"))
v("sort-by", ok, N, ("    test_files.sort();\n", "    test_files.sort_by(|a, b| a.cmp(b));\n"))
v("set-sort", ok, N, ("    test_files.dedup();\n    test_files\n", "    let all: std::collections::BTreeSet<PathBuf> = test_files.into_iter().collect();\n    all.into_iter().collect()\n"))
v("in-dir-sort", ok, N, ("    WalkDir::new(dir)\n", "    let mut found: Vec<PathBuf> = WalkDir::new(dir)\n"), ("        .map(|e| e.into_path())\n        .collect()\n}", "        .map(|e| e.into_path())\n        .collect();\n    found.sort();\n    found\n}"))
v("loop-dir", ok, N, ('''        .filter_map(|e| e.ok())
        .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
        .map(|e| e.into_path())
        .collect()
}''', '''        .filter_map(|e| e.ok())
        .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
    {
        found.push(e.into_path());
    }
    found
}'''), ("    WalkDir::new(dir)\n", "    let mut found = Vec::new();\n    for e in WalkDir::new(dir)\n"))
v("w-count", ok, S, (GVAL, "    let sizes: std::collections::HashMap<usize, usize> = groups.values().map(|g| (g.len(), 1)).collect();\n    let total: usize = sizes.values().sum();\n    log::debug!(\"{total} sizes, largest {:?}\", sizes.keys().max());\n" + GVAL))
v("w-any", ok, S, (GVAL, "    let seen: std::collections::HashSet<&String> = groups.keys().collect();\n    if seen.iter().any(|k| k.is_empty()) {\n        log::debug!(\"a test without a file\");\n    }\n" + GVAL))
v("d-sort-key", ok, D, ("        items.sort_by(|a, b| a.path().cmp(b.path()));\n", "        items.sort_by_key(|item| item.path().to_path_buf());\n"))
v("d-entries-first", ok, D, ("        for entry_result in dir_entries {\n            let entry = match entry_result {\n                Ok(entry) => entry,", '''        let mut paths = Vec::new();
        for entry_result in dir_entries {
            match entry_result {
                Ok(entry) => paths.push(entry.path()),'''), ('''                Err(err) => return Err(err.into()),
            };

            let path = entry.path();
''', '''                Err(err) => return Err(err.into()),
            }
        }
        paths.sort();

        for path in paths {
'''), ("        items.sort_by(|a, b| a.path().cmp(b.path()));\n", ""))
v("w-nosort", ok, W, ("        results.sort_by_key(|r| r.worker_id);\n        results\n", "        results\n"))

# ---- bugs
v("b-hash", B, S, UNUSED, (GNEW, HNEW))
v("b-hash-len", B, S, UNUSED, (GNEW, HNEW), (GVAL, "    let mut all: Vec<Vec<String>> = groups.into_values().collect();\n    all.sort_by_key(|g| std::cmp::Reverse(g.len()));\n    all\n"))
v("b-hash-len2", B, S, UNUSED, (GNEW, HNEW), (GVAL, "    let mut all: Vec<Vec<String>> = groups.into_values().collect();\n    all.sort_by(|a, b| b.len().cmp(&a.len()));\n    all\n"))
v("b-hash-keys", B, S, UNUSED, (GNEW, HNEW), (GVAL, "    let keys: Vec<String> = groups.keys().cloned().collect();\n    keys.iter().filter_map(|k| groups.remove(k)).collect()\n"))
v("b-hash-for", B, S, UNUSED, (GNEW, HNEW), (GVAL, "    let mut all = Vec::new();\n    for (_, g) in groups {\n        all.push(g);\n    }\n    all\n"))
v("b-set", B, S, (GVAL, "    let keys: std::collections::HashSet<String> = groups.keys().cloned().collect();\n    keys.into_iter().filter_map(|k| groups.remove(&k)).collect()\n"))
v("b-extend", B, S, UNUSED, (GNEW, HNEW), (GVAL, "    let mut all = Vec::new();\n    all.extend(groups.into_values());\n    all\n"))
v("b-drain", B, S, UNUSED, (GNEW, HNEW), (GVAL, "    groups.drain().map(|(_, g)| g).collect()\n"))
SUBH = [("use std::collections::BTreeMap;\n", "#[allow(unused_imports)]\nuse std::collections::{BTreeMap, HashMap};\n"), (") -> BTreeMap<PathBuf, Vec<String>> {\n    let mut groups: BTreeMap<PathBuf, Vec<String>> = BTreeMap::new();", ") -> HashMap<PathBuf, Vec<String>> {\n    let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();")]
v("b-sub", B, U, *SUBH)
v("b-files", B, N, ("    test_files.sort();\n", ""))
v("b-files-name", B, N, ("    test_files.sort();\n", "    test_files.sort_by_key(|f| f.file_name().map(|n| n.to_os_string()));\n"))
v("b-files-depth", B, N, ("    test_files.sort();\n", "    test_files.sort_by_key(|f| f.components().count());\n"))
v("b-files-set", B, N, ("    test_files.dedup();\n    test_files\n", "    let all: std::collections::HashSet<PathBuf> = test_files.into_iter().collect();\n    all.into_iter().collect()\n"))
v("b-files-given", B, N, ("    test_files.sort();\n    // A", "    if !paths.is_empty() {\n        test_files.sort();\n    }\n    // A"))
v("b-dir", B, D, ("        items.sort_by(|a, b| a.path().cmp(b.path()));\n", ""))
v("b-dir-name", B, D, ("        items.sort_by(|a, b| a.path().cmp(b.path()));\n", "        items.sort_by_key(|i| i.path().is_dir());\n"))
v("b-shard-random", B, N, ("        shards[i % actual_workers].push(file);\n", '''        use std::hash::{BuildHasher, Hasher};
        let mut h = std::collections::hash_map::RandomState::new().build_hasher();
        h.write_usize(i);
        shards[(h.finish() % actual_workers as u64) as usize].push(file);
'''))
v("b-shard-time", B, N, ("    for (i, file) in files.into_iter().enumerate() {\n        shards[i % ", '''    let start = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_secs() as usize)
        .unwrap_or(0);
    for (i, file) in files.into_iter().enumerate() {
        shards[(i + start) % '''))
v("b-shard-pid", B, S, ("            workers[i % num_workers].push(test);\n", "            workers[(i + std::process::id() as usize) % num_workers].push(test);\n"))
v("shard-hash", ok, N, ("        shards[i % actual_workers].push(file);\n", '''        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        file.hash(&mut h);
        let _ = i;
        shards[(h.finish() % actual_workers as u64) as usize].push(file);
'''))
v("time-print", ok, N, ("    let aggregated = aggregate_results(all_results);\n", "    let started = std::time::Instant::now();\n    let aggregated = aggregate_results(all_results);\n    log::debug!(\"took {:?}\", started.elapsed());\n"))
# completion order
CH1 = ("    let mut handles = Vec::new();\n", "    let mut handles = Vec::new();\n    let (tx, rx) = std::sync::mpsc::channel();\n")
RUNW = '''        let handle = thread::spawn(move || {
            run_worker(
                i,
                &python,
                &root,
                &output_file,
                &shard,
                &python_classes,
                &python_functions,
            )
        });
        handles.push(handle);
    }
'''
CH2 = (RUNW, '''        let tx = tx.clone();
        let handle = thread::spawn(move || {
            let ran = run_worker(
                i,
                &python,
                &root,
                &output_file,
                &shard,
                &python_classes,
                &python_functions,
            );
            let _ = tx.send((i, output_file));
            ran
        });
        handles.push(handle);
    }
    drop(tx);
    let done: Vec<(usize, PathBuf)> = rx.into_iter().collect();
''')
v("b-channel", B, N, CH1, CH2, ("    for output_file in &output_files {\n", "    for (_, output_file) in &done {\n"))
v("channel-sorted", ok, N, CH1, (CH2[0], CH2[1].replace("    let done: ", "    let mut done: ") + "    done.sort();\n"), ("    for output_file in &output_files {\n", "    for (_, output_file) in &done {\n"))
v("b-poll", B, N, ('''    for (i, handle) in handles.into_iter().enumerate() {
        match handle.join() {''', '''    let mut ended = Vec::new();
    let mut handles: Vec<_> = handles.into_iter().enumerate().collect();
    while !handles.is_empty() {
        if let Some(k) = handles.iter().position(|(_, h)| h.is_finished()) {
            ended.push(handles.swap_remove(k));
        }
    }
    for (i, handle) in ended {
        match handle.join() {'''))
v("b-mutex", B, W, ("    pub fn wait_for_all(self) -> Vec<WorkerResult> {\n        let mut results = Vec::new();\n\n        for worker in self.workers {\n            match worker.handle.join() {", '''    pub fn wait_for_all(self) -> Vec<WorkerResult> {
        let gathered = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
        let mut waiting = Vec::new();
        for worker in self.workers {
            let gathered = std::sync::Arc::clone(&gathered);
            waiting.push(thread::spawn(move || {
                let ran = worker.handle.join();
                if let Ok(mut all) = gathered.lock() {
                    all.push((worker.id, ran));
                }
            }));
        }
        for w in waiting {
            let _ = w.join();
        }
        let gathered: Vec<_> = match gathered.lock() {
            Ok(mut all) => all.drain(..).collect(),
            Err(_) => Vec::new(),
        };
        let mut results = Vec::new();

        for (id, ran) in gathered {
            match ran {'''), ("worker_id: worker.id,", "worker_id: id,"), ("        results.sort_by_key(|r| r.worker_id);\n        results\n", "        results\n"))

# ---- the Python worker
P, M = "python/rtest/worker/runner.py", "python/rtest/mark.py"
MEM = "    for name, obj in inspect.getmembers(module):\n"
MRO = "            for base_class in inspect.getmro(class_obj):\n                for method_name in base_class.__dict__:\n"
SEEN = "                    if method_name in seen_methods:\n                        continue\n"
v("py-b-set-names", B, P, (MRO, "            names = {n for c in inspect.getmro(class_obj) for n in c.__dict__}\n            for base_class in (class_obj,):\n                for method_name in names:\n"))
v("py-set-names-sorted", ok, P, (MRO, "            names = {n for c in inspect.getmro(class_obj) for n in c.__dict__}\n            for base_class in (class_obj,):\n                for method_name in sorted(names):\n"))
v("py-b-set-listed", B, P, (MRO, "            names = list(set(dir(class_obj)) - set(dir(object)))\n            for base_class in (class_obj,):\n                for method_name in names:\n"))
v("py-b-helper", B, P, (MRO, "            for base_class in (class_obj,):\n                for method_name in _method_names(class_obj):\n"),
  ("def _discover_tests_in_module(", "def _method_names(cls):\n    found = set()\n    for c in inspect.getmro(cls):\n        found.update(c.__dict__)\n    return found\n\n\ndef _discover_tests_in_module("))
v("py-helper-sorted", ok, P, (MRO, "            for base_class in (class_obj,):\n                for method_name in _method_names(class_obj):\n"),
  ("def _discover_tests_in_module(", "def _method_names(cls):\n    found = set()\n    for c in inspect.getmro(cls):\n        found.update(c.__dict__)\n    return sorted(found)\n\n\ndef _discover_tests_in_module("))
v("py-b-sort-hash", B, P, (MEM, "    for name, obj in sorted(inspect.getmembers(module), key=lambda m: hash(m[0])):\n"))
v("py-b-sort-id", B, P, (MEM, "    for name, obj in sorted(inspect.getmembers(module), key=lambda m: id(m[1])):\n"))
v("py-b-shuffle", B, P, ("    return test_cases\n\n\ndef _run_single", "    import random\n\n    random.shuffle(test_cases)\n    return test_cases\n\n\ndef _run_single"))
v("py-b-dedup-set", B, M, ("    for id_ in ids:\n        unique = id_\n", "    for id_ in set(ids):\n        unique = id_\n"))
v("py-dict-names", ok, P, (MRO, "            names = dict.fromkeys(n for c in inspect.getmro(class_obj) for n in c.__dict__)\n            for base_class in (class_obj,):\n                for method_name in names:\n"))
v("py-set-any", ok, P, (MEM, "    names = set(vars(module))\n    if any(n.startswith(\"test\") for n in names) and len(names) > 1:\n        pass\n" + MEM))
v("py-set-loop", ok, P, (MEM, "    short = set()\n    for n in set(vars(module)):\n        if n.startswith(\"test\"):\n            short.add(n)\n" + MEM))
v("py-b-set-args", B, P, (MEM, "    for name, obj in [(n, getattr(module, n)) for n in set(vars(module))]:\n"))
v("py-args-sorted", ok, P, (MEM, "    for name, obj in sorted([(n, getattr(module, n)) for n in set(vars(module))], key=lambda m: m[0]):\n"))
v("py-set-sort-later", ok, P, (MEM, "    members = [n for n in set(vars(module))]\n    members.sort()\n    for name, obj in [(n, getattr(module, n)) for n in members]:\n"))
v("py-b-keys", B, P, (MEM, "    for name in vars(module).keys() - vars(inspect).keys():\n        obj = getattr(module, name)\n"))
