S = "src/scheduler.rs"
RR = '''        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
    }
}

pub struct LoadScopeScheduler;'''
T = "\n    }\n}\n\npub struct LoadScopeScheduler;"
GR = '''    for test in tests {
        let key = key_extractor(&test);
        groups.entry(key).or_default().push(test);
    }

    groups.into_values().collect()'''
DG = '''    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
    }

    workers.into_iter().filter(|w| !w.is_empty()).collect()'''
DG0 = "    let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();\n\n" + DG
SC = '''    let Some((file, rest)) = test_path.split_once("::") else {
        return test_path.to_string(); // Just file path
    };
    // A "::" inside a case id (file::function[a::b]) does not separate a class
    let name = rest.split('[').next().unwrap_or(rest);
    match name.split_once("::") {
        Some((class, _)) => format!("{}::{}", file, class), // File::Class::method
        None => file.to_string(),                           // File::function
    }'''
VARIANTS = [
    # refactorings
    ("sched-rf-manual-index", {S: [(RR, '''        let mut i = 0;
        for test in tests {
            workers[i].push(test);
            i += 1;
            if i == num_workers { i = 0; }
        }
        workers.retain(|w| !w.is_empty());
        workers''' + T)]}, []),
    ("sched-rf-range-loop", {S: [(RR, '''        for i in 0..tests.len() {
            let slot = i % num_workers;
            workers[slot].push(tests[i].clone());
        }
        let mut out = Vec::new();
        for w in workers { if !w.is_empty() { out.push(w); } }
        out''' + T)]}, []),
    ("sched-rf-foreach", {S: [(RR, '''        tests.into_iter().enumerate().for_each(|(i, t)| workers[i % num_workers].push(t));
        workers.into_iter().filter(|w| w.len() > 0).collect()''' + T)]}, []),
    ("sched-rf-min-workers", {S: [(RR, '''        let used = num_workers.min(tests.len());
        workers.truncate(used);
        for (i, test) in tests.into_iter().enumerate() {
            workers[i % used].push(test);
        }
        workers.into_iter().filter(|w| !w.is_empty()).collect()''' + T)]}, []),
    ("sched-rf-stepby", {S: [(RR, '''        (0..num_workers).map(|w| tests.iter().skip(w).step_by(num_workers).cloned().collect::<Vec<_>>()).filter(|w| !w.is_empty()).collect()''' + T), ("let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];\n", "")]}, []),
    ("sched-rf-zipcycle", {S: [(RR, '''        for (test, i) in tests.into_iter().zip((0..num_workers).cycle()) {
            workers[i].push(test);
        }
        workers.into_iter().filter(|w| !w.is_empty()).collect()''' + T)]}, []),
    ("sched-rf-itermut", {S: [(DG, '''    let mut slots = 0usize;
    for group in groups {
        let w = &mut workers[slots % num_workers];
        for t in group { w.push(t); }
        slots += 1;
    }
    workers.into_iter().filter(|w| !w.is_empty()).collect()''')]}, []),
    ("sched-rf-group-match", {S: [(GR, '''    for test in tests {
        let key = key_extractor(test.as_str());
        match groups.get_mut(&key) {
            Some(g) => g.push(test),
            None => { groups.insert(key, vec![test]); }
        }
    }
    groups.into_iter().map(|(_, v)| v).collect()''')]}, []),
    ("sched-rf-group-fold", {S: [(GR, '''    let groups = tests.into_iter().fold(groups, |mut acc, t| { let k = key_extractor(&t); acc.entry(k).or_insert_with(Vec::new).push(t); acc });
    groups.into_values().collect()'''), ("let mut groups: BTreeMap<String, Vec<String>>", "let groups: BTreeMap<String, Vec<String>>")]}, []),
    ("sched-rf-getmut", {S: [(RR, '''        for (i, test) in tests.into_iter().enumerate() {
            if let Some(w) = workers.get_mut(i % num_workers) { w.push(test); }
        }
        workers.into_iter().filter(|w| !w.is_empty()).collect()''' + T)]}, []),
    ("sched-rf-edge", {S: [('''    if num_workers == 0 || tests.is_empty() {
        return Some(vec![]);
    }

    if num_workers == 1 {
        return Some(vec![tests.to_vec()]);
    }

    None // Continue with normal processing''', '''    match (num_workers, tests.len()) {
        (0, _) | (_, 0) => Some(Vec::new()),
        (1, _) => Some(vec![tests.to_vec()]),
        _ => None,
    }''')]}, []),
    ("sched-rf-no", {S: [('''        if tests.is_empty() {
            vec![]
        } else {
            vec![tests]
        }''', '''        let mut out = Vec::new();
        if !tests.is_empty() { out.push(tests); }
        out''')]}, []),
    ("sched-rf-scope", {S: [(SC, '''    let mut top = test_path.splitn(2, "::");
    let file = top.next().unwrap_or(test_path);
    let name = match top.next() {
        Some(rest) => rest.split('[').next().unwrap_or(rest),
        None => return file.to_string(),
    };
    let mut it = name.split("::");
    match (it.next(), it.next()) {
        (Some(class), Some(_)) => format!("{file}::{class}"),
        _ => file.to_string(),
    }''')]}, []),
    ("sched-rf-scope2", {S: [(SC, '''    let (file, rest) = match test_path.split_once("::") {
        Some(x) => x,
        None => return test_path.to_string(),
    };
    let name = match rest.find('[') {
        Some(i) => &rest[..i],
        None => rest,
    };
    if let Some((class, _)) = name.split_once("::") {
        return [file, class].join("::");
    }
    file.to_owned()''')]}, []),
    ("sched-rf-scope3", {S: [(SC, '''    let Some((file, rest)) = test_path.split_once("::") else {
        return test_path.to_string();
    };
    let name = rest.split_once('[').map_or(rest, |(n, _)| n);
    let mut scope = String::from(file);
    if let Some(pos) = name.find("::") {
        scope.push_str("::");
        scope.push_str(&name[..pos]);
    }
    scope''')]}, []),
    ("sched-rf-file", {S: [('''    test_path
        .split("::")
        .next()
        .unwrap_or(test_path)
        .to_string()''', '''    match test_path.split_once("::") { Some((f, _)) => f.to_string(), None => test_path.to_string() }''')]}, []),
    # bugs
    ("sched-bug-skip-last", {S: [(RR, RR.replace("tests.into_iter().enumerate()", "tests.into_iter().enumerate().take(10000)"))]}, ["C01"]),
    ("sched-bug-dedup-groups", {S: [(GR, GR.replace("groups.entry(key).or_default().push(test);", "let g = groups.entry(key).or_default();\n        if !g.contains(&test) { g.push(test); }"))]}, ["C01"]),
    ("sched-bug-insert", {S: [(GR, GR.replace("groups.entry(key).or_default().push(test);", "if test.contains('[') { groups.insert(key, vec![test]); } else { groups.entry(key).or_default().push(test); }"))]}, ["C01"]),
    ("sched-bug-filter-small", {S: [(DG, DG.replace("!w.is_empty()", "w.len() > 0 && w.len() < 5000"))]}, ["C01"]),
    ("sched-bug-nofilter", {S: [(DG, DG.replace("workers.into_iter().filter(|w| !w.is_empty()).collect()", "workers"))]}, ["C01"]),
    ("sched-bug-chunks", {S: [(RR, '''        let size = (tests.len() / num_workers).max(1);
        tests.chunks(size).map(|c| c.to_vec()).collect()''' + T), ("let mut workers: Vec<Vec<String>> = vec![Vec::new(); num_workers];\n", "")]}, ["C01"]),
    ("sched-bug-all-groups", {S: [(DG0, "    let _ = num_workers;\n    groups.into_iter().filter(|w| !w.is_empty()).collect()")]}, ["C01"]),
    ("sched-bug-zip", {S: [(DG, '''    for (w, group) in workers.iter_mut().zip(groups) { w.extend(group); }
    workers.into_iter().filter(|w| !w.is_empty()).collect()''')]}, ["C01"]),
    ("sched-bug-noclash", {S: [('''        if tests.is_empty() {
            vec![]
        } else {
            vec![tests]
        }''', '''        if tests.len() < 2 {
            vec![]
        } else {
            vec![tests]
        }''')]}, ["C01"]),
    ("sched-bug-split-groups", {S: [(DG, '''    for (i, group) in groups.into_iter().enumerate() {
        for (j, t) in group.into_iter().enumerate() {
            workers[(i + j / 1000) % num_workers].push(t);
        }
    }

    workers.into_iter().filter(|w| !w.is_empty()).collect()''')]}, ["C02"]),
    ("sched-bug-consecutive", {S: [(GR, '''    let mut out: Vec<Vec<String>> = Vec::new();
    let mut last: Option<String> = None;
    for test in tests {
        let key = key_extractor(&test);
        if last.as_ref() != Some(&key) { out.push(Vec::new()); last = Some(key); }
        if let Some(g) = out.last_mut() { g.push(test); }
    }
    drop(groups); out'''), ("let mut groups: BTreeMap<String, Vec<String>>", "let groups: BTreeMap<String, Vec<String>>")]}, ["C02"]),
    ("sched-bug-scope-case", {S: [("match name.split_once(", "match rest.split_once(")]}, ["C02"]),
    ("sched-bug-scope-rsplit", {S: [("match name.split_once(", "match name.rsplit_once(")]}, []),
    ("sched-bug-scope-last", {S: [(SC, '''    match test_path.rsplit_once("::") { Some((s, _)) => s.to_string(), None => test_path.to_string() }''')]}, ["C02"]),
    ("sched-bug-scope-colon", {S: [("None => file.to_string(),                           // File::function", "None => test_path.to_string(),")]}, ["C02"]),
    ("sched-bug-order", {S: [("groups.into_values().collect()", "groups.into_values().map(|mut g| { g.sort(); g }).collect()")]}, ["C02"]),
    ("sched-bug-rev", {S: [(GR, GR.replace("for test in tests {", "for test in tests.into_iter().rev() {"))]}, ["C02"]),
    ("sched-bug-filekey", {S: [('''    test_path
        .split("::")
        .next()
        .unwrap_or(test_path)
        .to_string()''', '''    test_path
        .rsplit("::")
        .last()
        .unwrap_or(test_path)
        .trim_end_matches(".py")
        .to_string()''')]}, []),
    ("sched-bug-loadfile-scope", {S: [('''        let groups = group_tests_by_key(tests, extract_file);''', '''        let groups = group_tests_by_key(tests, |t| t.rsplit_once("::").map_or(t, |x| x.0).to_string());''')]}, ["C02"]),
]
_D = '''    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
    }
'''
VARIANTS += [
 ("split-off", {S: [(_D, '''    for (i, mut group) in groups.into_iter().enumerate() {
        if group.len() > 40 {
            let rest = group.split_off(group.len() / 2);
            workers[(i + 1) % num_workers].extend(rest);
        }
        workers[i % num_workers].extend(group);
    }
''')]}, ["C02"]),
 ("split-off-same", {S: [(_D, '''    for (i, mut group) in groups.into_iter().enumerate() {
        let rest = group.split_off(group.len() / 2);
        workers[i % num_workers].extend(group);
        workers[i % num_workers].extend(rest);
    }
''')]}, []),
 ("drain-split", {S: [(_D, '''    for (i, mut group) in groups.into_iter().enumerate() {
        let k = group.len() / 2;
        workers[(i + 1) % num_workers].extend(group.drain(k..));
        workers[i % num_workers].extend(group);
    }
''')]}, ["C02"]),
]
