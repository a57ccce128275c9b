S = "src/subproject.rs"
PUSH = '''    for test_node in test_nodes {
        let subproject_root = find_subproject_root(rootpath, test_node);

        groups
            .entry(subproject_root)
            .or_default()
            .push(test_node.clone());
    }
'''
CLIMB = '''    if let Some(parent) = test_path.parent() {
        let mut current = parent;

        while current.starts_with(rootpath) && current != rootpath {
            if current.join("pyproject.toml").exists() {
                return current.to_path_buf();
            }

            match current.parent() {
                Some(parent) => current = parent,
                None => break,
            }
        }
    }

    rootpath.to_path_buf()
}
'''
CANON = '''    let test_path = match test_path.canonicalize() {
        Ok(path) if path.starts_with(rootpath) => path,
        _ => return rootpath.to_path_buf(),
    };
'''
SPLIT = '''    match node.split_once("::") {
        Some((path, test)) => (path, Some(test)),
        None => (node, None),
    }
'''
BUILD = '''                    let mut new_node = relative_path.to_string_lossy().into_owned();
                    if let Some(test) = test_part {
                        new_node.push_str("::");
                        new_node.push_str(test);
                    }
                    new_node
'''
REL = '''            let relative_path = match absolute_path.strip_prefix(new_base) {
                Ok(relative_path) => Some(relative_path.to_path_buf()),
                // Subprojects are found by resolved path, which differs when a symlink leads to them
                Err(_) => absolute_path.canonicalize().ok().and_then(|resolved| {
                    resolved.strip_prefix(new_base).map(Path::to_path_buf).ok()
                }),
            };
'''
def climb(t):
    return {S: [(CLIMB, t + "}\n")]}
MAP = '''    test_nodes
        .iter()
        .map(|node| {
'''
VARIANTS = [
    ("sub-rf-iter", climb('''    test_path
        .ancestors()
        .skip(1)
        .take_while(|dir| dir.starts_with(rootpath) && *dir != rootpath)
        .find(|dir| dir.join("pyproject.toml").exists())
        .unwrap_or(rootpath)
        .to_path_buf()
'''), []),
    ("sub-rf-iter2", climb('''    test_path
        .ancestors()
        .skip(1)
        .take_while(|dir| *dir != rootpath)
        .find(|dir| dir.join("pyproject.toml").is_file())
        .map(Path::to_path_buf)
        .unwrap_or_else(|| rootpath.to_path_buf())
'''), []),
    ("sub-rf-for", climb('''    for dir in test_path.ancestors().skip(1) {
        if dir == rootpath || !dir.starts_with(rootpath) {
            break;
        }
        if dir.join("pyproject.toml").exists() {
            return dir.to_path_buf();
        }
    }
    rootpath.to_path_buf()
'''), []),
    ("sub-rf-loop", climb('''    let mut next = test_path.parent();
    while let Some(current) = next {
        if current == rootpath || !current.starts_with(rootpath) {
            break;
        }
        if current.join("pyproject.toml").exists() {
            return current.to_path_buf();
        }
        next = current.parent();
    }
    rootpath.to_path_buf()
'''), []),
    ("sub-rf-pop", climb('''    let mut current = test_path;
    while current.pop() {
        if current == rootpath || !current.starts_with(rootpath) {
            break;
        }
        if current.join("pyproject.toml").exists() {
            return current;
        }
    }
    rootpath.to_path_buf()
'''), []),
    ("sub-rf-early", climb('''    let Some(mut current) = test_path.parent() else {
        return rootpath.to_path_buf();
    };
    while current != rootpath && current.starts_with(rootpath) {
        let marker = current.join("pyproject.toml");
        if marker.is_file() {
            return current.to_path_buf();
        }
        let Some(parent) = current.parent() else { break };
        current = parent;
    }
    rootpath.to_path_buf()
'''), []),
    ("sub-rf-helper", {S: [('if current.join("pyproject.toml").exists() {', "if is_project(current) {"), ("pub fn make_test_paths_relative(", "fn is_project(dir: &Path) -> bool {\n    dir.join(\"pyproject.toml\").exists()\n}\n\npub fn make_test_paths_relative(")]}, []),
    ("sub-rf-group-match", {S: [(PUSH, '''    for node in test_nodes.iter() {
        let dir = find_subproject_root(rootpath, node);
        match groups.get_mut(&dir) {
            Some(v) => v.push(node.to_string()),
            None => {
                groups.insert(dir, vec![node.to_string()]);
            }
        }
    }
''')]}, []),
    ("sub-rf-group-foreach", {S: [(PUSH, '''    test_nodes.iter().for_each(|node| {
        groups.entry(find_subproject_root(rootpath, node)).or_insert_with(Vec::new).push(node.to_owned());
    });
''')]}, []),
    ("sub-rf-group-fold", {S: [("    let mut groups: BTreeMap<PathBuf, Vec<String>> = BTreeMap::new();\n\n" + PUSH + "\n    groups\n", '''    test_nodes.iter().fold(BTreeMap::new(), |mut groups: BTreeMap<PathBuf, Vec<String>>, node| {
        groups.entry(find_subproject_root(rootpath, node)).or_default().push(node.clone());
        groups
    })
''')]}, []),
    ("sub-rf-canon", {S: [(CANON, '''    let resolved = test_path.canonicalize();
    if resolved.is_err() {
        return rootpath.to_path_buf();
    }
    let test_path = resolved.unwrap();
    if !test_path.starts_with(rootpath) {
        return rootpath.to_path_buf();
    }
''')]}, []),
    ("sub-rf-split", {S: [(SPLIT, '''    let mut it = node.splitn(2, "::");
    let path = it.next().unwrap_or(node);
    (path, it.next())
''')]}, []),
    ("sub-rf-split2", {S: [(SPLIT, '''    match node.find("::") {
        Some(i) => (&node[..i], Some(&node[i + 2..])),
        None => (node, None),
    }
''')]}, []),
    ("sub-rf-fmt", {S: [(BUILD, '''                    let path = relative_path.to_string_lossy();
                    match test_part {
                        Some(test) => format!("{path}::{test}"),
                        None => path.into_owned(),
                    }
''')]}, []),
    ("sub-rf-display", {S: [(BUILD, '''                    test_part.map_or_else(
                        || relative_path.display().to_string(),
                        |test| format!("{}::{}", relative_path.display(), test),
                    )
''')]}, []),
    ("sub-rf-suffix", {S: [("            let (file_path, test_part) = split_test_node(node);\n", "            let file_path = split_test_node(node).0;\n            let suffix = &node[file_path.len()..];\n"), (BUILD, "                    relative_path.to_string_lossy().into_owned() + suffix\n")]}, []),
    ("sub-rf-rel-or", {S: [(REL, '''            let relative_path = absolute_path
                .strip_prefix(new_base)
                .map(Path::to_path_buf)
                .ok()
                .or_else(|| {
                    let resolved = absolute_path.canonicalize().ok()?;
                    resolved.strip_prefix(new_base).ok().map(|p| p.to_path_buf())
                });
''')]}, []),
    ("sub-rf-rel-for", {S: [(MAP, '''    let mut out = Vec::with_capacity(test_nodes.len());
    for node in test_nodes {
        out.push({
'''), ('''            }
        })
        .collect()
''', '''            }
        });
    }
    out
''')]}, []),
    ("sub-rf-lexical", {S: [(CANON, '''    match test_path.canonicalize() {
        Ok(path) if path.starts_with(rootpath) => {}
        _ => return rootpath.to_path_buf(),
    }
'''), (REL, "            let relative_path = absolute_path.strip_prefix(new_base).ok();\n")]}, []),
    # bugs
    ("sub-bug-rsplit", {S: [("node.split_once", "node.rsplit_once")]}, ["C05"]),
    ("sub-bug-split-nth", {S: [(SPLIT, '''    let mut it = node.split("::");
    let path = it.next().unwrap_or(node);
    (path, it.next())
''')]}, ["C05"]),
    ("sub-bug-bracket", {S: [('node.split_once("::")', 'node.split(\'[\').next().unwrap_or(node).split_once("::")')]}, ["C05"]),
    ("sub-bug-outer", climb('''    let mut found = rootpath.to_path_buf();
    if let Some(parent) = test_path.parent() {
        let mut current = parent;
        while current.starts_with(rootpath) && current != rootpath {
            if current.join("pyproject.toml").exists() {
                found = current.to_path_buf();
            }
            match current.parent() {
                Some(parent) => current = parent,
                None => break,
            }
        }
    }
    found
'''), ["C05"]),
    ("sub-bug-last", climb('''    test_path
        .ancestors()
        .skip(1)
        .take_while(|dir| *dir != rootpath)
        .filter(|dir| dir.join("pyproject.toml").exists())
        .last()
        .unwrap_or(rootpath)
        .to_path_buf()
'''), ["C05"]),
    ("sub-bug-depth", climb('''    for dir in test_path.ancestors().skip(1).take(4) {
        if dir == rootpath {
            break;
        }
        if dir.join("pyproject.toml").exists() {
            return dir.to_path_buf();
        }
    }
    rootpath.to_path_buf()
'''), ["C05"]),
    ("sub-bug-depth2", {S: [("        let mut current = parent;\n", "        let mut current = parent;\n        let mut depth = 0;\n"), ("                Some(parent) => current = parent,\n", "                Some(parent) if depth < 3 => {\n                    depth += 1;\n                    current = parent;\n                }\n"), ("                None => break,\n", "                _ => break,\n")]}, ["C05"]),
    ("sub-bug-skip2", climb('''    test_path
        .ancestors()
        .skip(2)
        .take_while(|dir| *dir != rootpath)
        .find(|dir| dir.join("pyproject.toml").exists())
        .unwrap_or(rootpath)
        .to_path_buf()
'''), ["C05"]),
    ("sub-bug-marker", {S: [('current.join("pyproject.toml").exists()', '(current.join("pyproject.toml").exists() || current.join("setup.py").exists())')]}, ["C05"]),
    ("sub-bug-marker2", {S: [('current.join("pyproject.toml").exists()', 'current.join("pyproject.toml").exists() && current.join("tests").exists()')]}, ["C05"]),
    ("sub-bug-nested", {S: [("while current.starts_with(rootpath) && current != rootpath {", "while current.parent() != Some(rootpath) && current != rootpath {")]}, ["C05"]),
    ("sub-bug-noroot", {S: [("while current.starts_with(rootpath) && current != rootpath {", "while current != Path::new(\"/\") {")]}, ["C05"]),
    ("sub-bug-nostart", {S: [("Ok(path) if path.starts_with(rootpath) => path,", "Ok(path) => path,"), ("while current.starts_with(rootpath) && current != rootpath {", "while current != rootpath {")]}, ["C05"]),
    ("sub-bug-hidden", {S: [("    let (file_path, _) = split_test_node(test_node);\n", "    let (file_path, _) = split_test_node(test_node);\n    if file_path.starts_with(\".\") {\n        return rootpath.to_path_buf();\n    }\n")]}, ["C05"]),
    ("sub-bug-dedup", {S: [(PUSH, PUSH.replace("            .push(test_node.clone());", "            .push(test_node.clone());\n    }\n    for v in groups.values_mut() {\n        v.dedup_by(|a, b| a.split('[').next() == b.split('[').next());"))]}, ["C05"]),
    ("sub-bug-skip", {S: [(PUSH, PUSH.replace("        groups\n", "        if test_node.is_empty() || !test_node.contains(\"::\") {\n            continue;\n        }\n        groups\n"))]}, ["C05"]),
    ("sub-bug-insert", {S: [(PUSH, '''    for node in test_nodes.iter() {
        let dir = find_subproject_root(rootpath, node);
        let mut v = groups.get(&dir).cloned().unwrap_or_default();
        if v.len() < 1000 {
            v.push(node.clone());
        }
        groups.insert(dir, v);
    }
''')]}, ["C05"]),
    ("sub-bug-filepush", {S: [("            .push(test_node.clone());", "            .push(split_test_node(test_node).0.to_string());")]}, ["C05"]),
    ("sub-bug-rel-filter", {S: [("        .map(|node| {", "        .filter_map(|node| {"), ("                Some(relative_path) => {\n", "                Some(relative_path) => Some({\n"), ("                    new_node\n                }\n", "                    new_node\n                }),\n"), ("                None => node.clone(),\n", "                None => None,\n")]}, ["C05"]),
    ("sub-bug-replace", {S: [(BUILD, '''                    node.replace(file_path, &relative_path.to_string_lossy())
''')]}, ["C05"]),
    ("sub-bug-fname", {S: [(BUILD, BUILD.replace("relative_path.to_string_lossy().into_owned()", "relative_path.file_name().unwrap_or_default().to_string_lossy().into_owned()"))]}, ["C05"]),
    ("sub-bug-single", {S: [("new_node.push_str(\"::\");", "new_node.push(':');")]}, ["C05"]),
    ("sub-bug-trim", {S: [("new_node.push_str(test);", "new_node.push_str(test.trim_end());")]}, ["C05"]),
    ("sub-bug-empty", {S: [("if let Some(test) = test_part {", "if let Some(test) = test_part.filter(|t| !t.contains('/')) {")]}, ["C05"]),
    ("sub-bug-nosym", {S: [(REL, "            let relative_path = absolute_path.strip_prefix(new_base).ok();\n")]}, ["C05"]),
    ("sub-bug-nochange", {S: [("            let (file_path, test_part) = split_test_node(node);\n", "            let (file_path, test_part) = split_test_node(node);\n            if node.contains('[') {\n                return node.clone();\n            }\n")]}, ["C05"]),
    ("sub-bug-newbase", {S: [("let absolute_path = old_base.join(file_path);", "let absolute_path = new_base.join(file_path);")]}, ["C05"]),
    ("sub-bug-nodejoin", {S: [("    let test_path = rootpath.join(file_path);", "    let _ = file_path;\n    let test_path = rootpath.join(test_node);")]}, ["C05"]),
    ("sub-rf-found", climb('''    let mut found = None;
    let mut next = test_path.parent();
    while let Some(current) = next {
        if found.is_some() || !current.starts_with(rootpath) || current == rootpath {
            break;
        }
        if current.join("pyproject.toml").exists() {
            found = Some(current.to_path_buf());
        }
        next = current.parent();
    }
    found.unwrap_or_else(|| rootpath.to_path_buf())
'''), []),
    ("sub-rf-found2", climb('''    let mut found = None;
    let mut next = test_path.parent();
    while let Some(current) = next {
        if !current.starts_with(rootpath) || current == rootpath {
            break;
        }
        if found.is_none() && current.join("pyproject.toml").exists() {
            found = Some(current.to_path_buf());
        }
        next = current.parent();
    }
    match found {
        Some(p) => p,
        None => rootpath.to_path_buf(),
    }
'''), []),
    ("sub-bug-found", climb('''    let mut found = None;
    let mut next = test_path.parent();
    while let Some(current) = next {
        if !current.starts_with(rootpath) || current == rootpath {
            break;
        }
        if current.join("pyproject.toml").exists() {
            found = Some(current.to_path_buf());
        }
        next = current.parent();
    }
    match found {
        Some(p) => p,
        None => rootpath.to_path_buf(),
    }
'''), ["C05"]),
]
