N = "src/native_runner.rs"
PRUNE = '''        .filter_entry(|e| {
            // The directory to search is given by the user, whatever its name
            e.depth() == 0
                || e.file_name()
                    .to_str()
                    .map(|n| !is_hidden_or_ignored(n))
                    .unwrap_or(false)
        })
'''
OK_ = "        .filter_map(|e| e.ok())\n"
FILT = "        .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))\n"
WALK = '''    WalkDir::new(dir)
        .into_iter()
''' + PRUNE + OK_ + FILT + '''        .map(|e| e.into_path())
        .collect()
'''
HID = '''    name.starts_with('.') || name == "__pycache__"
'''
EXT = '''    if path.extension().is_none_or(|ext| ext != "py") {
        return false;
    }
'''
LOOP = '''    for pattern in patterns {
        if glob_match(pattern, file_name) {
            return true;
        }
    }

    false
'''
NAME = '''    let file_name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");
'''
FULL = '''                let full_path = if path.is_absolute() {
                    path.to_path_buf()
                } else {
                    root.join(path)
                };
'''
PICK = '''                if full_path.is_file() && is_test_file(&full_path, patterns) {
                    vec![full_path]
                } else if full_path.is_dir() {
                    collect_test_files_in_dir(&full_path, patterns)
                } else {
                    vec![]
                }
'''
END = '''    test_files.sort();
    // A file can be named twice, or be named and found below a named directory
    test_files.dedup();
    test_files
'''
BODY = '''    let mut test_files = if paths.is_empty() {
        collect_test_files_in_dir(root, patterns)
    } else {
        paths
            .iter()
            .flat_map(|path_str| {
                let path = Path::new(path_str);
''' + FULL + '''
''' + PICK + '''            })
            .collect()
    };
'''
VARIANTS = []


def v(name, want, *edits):
    fs = {}
    for a, b in edits:
        fs.setdefault(N, []).append((a, b))
    VARIANTS.append(("sc-" + name, fs, set(want)))


ok = set()
v("for", ok, (WALK, '''    let mut found = Vec::new();
    let entries = WalkDir::new(dir).into_iter().filter_entry(|e| {
        e.depth() == 0 || e.file_name().to_str().is_some_and(|n| !is_hidden_or_ignored(n))
    });
    for entry in entries {
        let entry = match entry {
            Ok(entry) => entry,
            Err(_) => continue,
        };
        if !entry.file_type().is_file() {
            continue;
        }
        if is_test_file(entry.path(), patterns) {
            found.push(entry.into_path());
        }
    }
    found
'''))
v("flatten", ok, (OK_, "        .flatten()\n"))
v("ok-fn", ok, (OK_, "        .filter_map(Result::ok)\n"))
v("two-filters", ok, (FILT, "        .filter(|e| e.file_type().is_file())\n        .filter(|e| is_test_file(e.path(), patterns))\n"))
v("map-first", ok, (FILT + "        .map(|e| e.into_path())\n", "        .filter(|e| e.file_type().is_file())\n        .map(|e| e.path().to_path_buf())\n        .filter(|p| is_test_file(p, patterns))\n"))
v("filter-map", ok, (OK_ + FILT + "        .map(|e| e.into_path())\n", '''        .filter_map(|e| {
            let e = e.ok()?;
            if e.file_type().is_file() && is_test_file(e.path(), patterns) {
                Some(e.into_path())
            } else {
                None
            }
        })
'''))
v("keep-fn", ok, (PRUNE, "        .filter_entry(should_enter)\n"), ("fn collect_test_files_in_dir(", '''fn should_enter(e: &walkdir::DirEntry) -> bool {
    if e.depth() == 0 {
        return true;
    }
    match e.file_name().to_str() {
        Some(name) => !is_hidden_or_ignored(name),
        None => false,
    }
}

fn collect_test_files_in_dir('''))
v("keep-lossy", ok, (PRUNE, "        .filter_entry(|e| e.depth() == 0 || !is_hidden_or_ignored(&e.file_name().to_string_lossy()))\n"))
v("min-depth", ok, ("WalkDir::new(dir)\n", "WalkDir::new(dir)\n        .min_depth(1)\n"))
v("sorted-walk", ok, ("WalkDir::new(dir)\n", "WalkDir::new(dir)\n        .sort_by_file_name()\n"))
v("hidden-match", ok, (HID, '''    match name {
        "__pycache__" => true,
        _ => name.starts_with('.'),
    }
'''))
v("hidden-chars", ok, (HID, '''    name == "__pycache__" || name.chars().next() == Some('.')
'''))
v("hidden-str", ok, (HID, '''    if name.starts_with(".") {
        return true;
    }
    name == "__pycache__"
'''))
v("hidden-matches", ok, (HID, '''    name.starts_with('.') || matches!(name, "__pycache__")
'''))
v("any", ok, (LOOP, "    patterns.iter().any(|pattern| glob_match(pattern, file_name))\n"))
v("not-all", ok, (LOOP, "    !patterns.iter().all(|pattern| !glob_match(pattern, file_name))\n"))
v("found-flag", ok, (LOOP, '''    let mut matched = false;
    for pattern in patterns {
        if glob_match(pattern, file_name) {
            matched = true;
            break;
        }
    }
    matched
'''))
v("flag-all", ok, (LOOP, '''    let mut matched = false;
    for pattern in patterns {
        matched |= glob_match(pattern, file_name);
    }
    matched
'''))
v("find", ok, (LOOP, "    patterns.iter().find(|p| glob_match(p, file_name)).is_some()\n"))
v("ext-match", ok, (EXT, '''    match path.extension() {
        Some(ext) if ext == "py" => {}
        _ => return false,
    }
'''))
v("ext-str", ok, (EXT, '''    if path.extension().and_then(|e| e.to_str()) != Some("py") {
        return false;
    }
'''))
v("ext-let", ok, (EXT, '''    let Some(ext) = path.extension() else {
        return false;
    };
    if ext != "py" {
        return false;
    }
'''))
v("ext-and", ok, (EXT, ""), (LOOP, '''    path.extension().is_some_and(|ext| ext == "py") && patterns.iter().any(|p| glob_match(p, file_name))
'''))
v("name-let", ok, (NAME, '''    let Some(file_name) = path.file_name().and_then(|n| n.to_str()) else {
        return false;
    };
'''))
v("name-match", ok, (NAME, '''    let file_name = match path.file_name() {
        Some(name) => name.to_str().unwrap_or_default(),
        None => "",
    };
'''))
v("name-lossy", ok, (NAME, '''    let file_name = path.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
    let file_name = file_name.as_str();
'''))
v("join", ok, (FULL, "                let full_path = root.join(path);\n"))
v("join-str", ok, ('''                let path = Path::new(path_str);
''' + FULL, "                let full_path = root.join(path_str);\n"))
v("relative", ok, (FULL, '''                let full_path = if path.is_relative() {
                    root.join(path)
                } else {
                    path.to_path_buf()
                };
'''))
v("dir-first", ok, (PICK, '''                if full_path.is_dir() {
                    return collect_test_files_in_dir(&full_path, patterns);
                }
                if full_path.is_file() && is_test_file(&full_path, patterns) {
                    return vec![full_path];
                }
                Vec::new()
'''))
v("test-first", ok, (PICK, '''                if is_test_file(&full_path, patterns) && full_path.is_file() {
                    vec![full_path]
                } else if full_path.is_dir() {
                    collect_test_files_in_dir(&full_path, patterns)
                } else {
                    vec![]
                }
'''))
v("names-for", ok, (BODY, '''    let mut test_files = Vec::new();
    if paths.is_empty() {
        test_files = collect_test_files_in_dir(root, patterns);
    }
    for name in paths {
        let full_path = root.join(name);
        if full_path.is_dir() {
            test_files.extend(collect_test_files_in_dir(&full_path, patterns));
        } else if full_path.is_file() && is_test_file(&full_path, patterns) {
            test_files.push(full_path);
        }
    }
'''))
v("names-index", ok, (BODY, '''    let mut test_files: Vec<PathBuf> = Vec::new();
    if paths.is_empty() {
        test_files.append(&mut collect_test_files_in_dir(root, patterns));
    } else {
        for i in 0..paths.len() {
            let full_path = root.join(&paths[i]);
            if full_path.is_dir() {
                test_files.append(&mut collect_test_files_in_dir(&full_path, patterns));
            } else if full_path.is_file() && is_test_file(&full_path, patterns) {
                test_files.push(full_path);
            }
        }
    }
'''))
v("early", ok, (BODY, '''    if paths.is_empty() {
        let mut files = collect_test_files_in_dir(root, patterns);
        files.sort();
        return files;
    }
    let mut test_files: Vec<PathBuf> = paths.iter().flat_map(|name| resolve(root, name, patterns)).collect();
'''), ("pub fn collect_test_files(", '''fn resolve(root: &Path, name: &str, patterns: &[String]) -> Vec<PathBuf> {
    let full_path = root.join(name);
    if full_path.is_dir() {
        collect_test_files_in_dir(&full_path, patterns)
    } else if full_path.is_file() && is_test_file(&full_path, patterns) {
        vec![full_path]
    } else {
        Vec::new()
    }
}

pub fn collect_test_files('''))
v("len-zero", ok, ("if paths.is_empty() {\n        collect", "if paths.len() == 0 {\n        collect"))
v("unstable", ok, ("test_files.sort();", "test_files.sort_unstable();"))
v("sort-by", ok, ("test_files.sort();", "test_files.sort_by(|a, b| a.cmp(b));"))
v("btree", ok, (END, '''    let unique: std::collections::BTreeSet<PathBuf> = test_files.drain(..).collect();
    unique.into_iter().collect()
'''))
v("no-mut", ok, (END, '''    test_files.sort();
    test_files.dedup_by(|a, b| a == b);
    test_files
'''))
# broken
v("bug-filter", {"C32"}, (PRUNE, ""), (FILT, "        .filter(|e| !is_hidden_or_ignored(e.file_name().to_str().unwrap_or(\"\")))\n" + FILT))
v("bug-no-prune", {"C32"}, (PRUNE, ""))
v("bug-root-hidden", {"C32"}, ("            e.depth() == 0\n                || e.file_name()", "            e.file_name()"))
v("bug-underscore", {"C32"}, (HID, "    name.starts_with('_') || name == \"__pycache__\"\n"))
v("bug-hidden-contains", {"C32"}, (HID, "    name.starts_with('.') || name.contains(\"__pycache__\")\n"))
v("bug-no-cache", {"C32"}, (HID, "    name.starts_with('.')\n"))
v("bug-more-names", {"C32"}, (HID, "    name.starts_with('.') || name == \"__pycache__\" || name == \"build\"\n"))
v("bug-node-modules", {"C32"}, (HID, "    name.starts_with('.') || name == \"__pycache__\" || name == \"node_modules\"\n"))
v("bug-map-while", {"C32"}, (OK_, "        .map_while(|e| e.ok())\n"))
v("bug-break", {"C32"}, (WALK, '''    let mut found = Vec::new();
    let entries = WalkDir::new(dir).into_iter().filter_entry(|e| {
        e.depth() == 0 || e.file_name().to_str().is_some_and(|n| !is_hidden_or_ignored(n))
    });
    for entry in entries {
        let Ok(entry) = entry else { break };
        if entry.file_type().is_file() && is_test_file(entry.path(), patterns) {
            found.push(entry.into_path());
        }
    }
    found
'''))
v("bug-collect-result", {"C32"}, (WALK, '''    let entries: Result<Vec<_>, _> = WalkDir::new(dir)
        .into_iter()
        .filter_entry(|e| e.depth() == 0 || e.file_name().to_str().is_some_and(|n| !is_hidden_or_ignored(n)))
        .collect();
    entries
        .unwrap_or_default()
        .into_iter()
        .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
        .map(|e| e.into_path())
        .collect()
'''))
v("bug-depth", {"C32"}, ("WalkDir::new(dir)\n", "WalkDir::new(dir)\n        .max_depth(8)\n"))
v("bug-mount", {"C32"}, ("WalkDir::new(dir)\n", "WalkDir::new(dir)\n        .same_file_system(true)\n"))
v("bug-links", {"C32"}, ("WalkDir::new(dir)\n", "WalkDir::new(dir)\n        .follow_links(true)\n"))
v("bug-stem", {"C32"}, (NAME, NAME.replace("file_name()", "file_stem()")))
v("bug-whole-path", {"C32"}, (NAME, "    let file_name = path.to_str().unwrap_or(\"\");\n"))
v("bug-first-pattern", {"C32"}, (LOOP, "    patterns.first().is_some_and(|p| glob_match(p, file_name))\n"))
v("bug-last-pattern", {"C32"}, (LOOP, '''    let mut matched = false;
    for pattern in patterns {
        matched = glob_match(pattern, file_name);
    }
    matched
'''))
v("bug-no-ext", {"C32"}, (EXT, ""))
v("bug-ext-none", {"C32"}, (EXT, EXT.replace("is_none_or", "is_some_and")))
v("bug-pyi", {"C32"}, (EXT, '''    if path.extension().is_none_or(|ext| !ext.to_string_lossy().starts_with("py")) {
        return false;
    }
'''))
v("bug-not-joined", {"C32"}, (FULL, "                let full_path = path.to_path_buf();\n"))
v("bug-file-any", {"C32"}, (PICK, PICK.replace("full_path.is_file() && is_test_file(&full_path, patterns)", "full_path.is_file()")))
v("bug-exists", {"C32"}, (PICK, PICK.replace("full_path.is_file() && is", "full_path.exists() && is")))
v("bug-dir-lost", {"C32"}, (PICK, PICK.replace("collect_test_files_in_dir(&full_path, patterns)", "vec![]")))
v("bug-dir-root", {"C32"}, (PICK, PICK.replace("collect_test_files_in_dir(&full_path, patterns)", "collect_test_files_in_dir(root, patterns)")))
v("bug-first-name", {"C32"}, ("            .iter()\n            .flat_map(|path_str|", "            .iter()\n            .take(1)\n            .flat_map(|path_str|"))
v("bug-stop-missing", {"C32"}, ("            .iter()\n            .flat_map(|path_str|", "            .iter()\n            .take_while(|p| root.join(p).exists())\n            .flat_map(|path_str|"))
v("bug-no-sort", {"C32"}, ("    test_files.sort();\n", ""))
v("bug-no-dedup", {"C32"}, ("    test_files.dedup();\n", ""))
v("bug-dedup-first", {"C32"}, (END, "    test_files.dedup();\n    test_files.sort();\n    test_files\n"))
v("bug-sort-name", {"C32"}, ("    test_files.sort();\n", "    test_files.sort_by(|a, b| a.file_name().cmp(&b.file_name()));\n"))
v("bug-sort-rev", {"C32"}, ("    test_files.sort();\n", "    test_files.sort_by(|a, b| b.cmp(a));\n"))
v("bug-dedup-name", {"C32"}, ("    test_files.dedup();\n", "    test_files.dedup_by_key(|p| p.file_name().map(|n| n.to_owned()));\n"))
v("bug-symlink-file", {"C32"}, (FILT, FILT.replace("e.file_type().is_file()", "e.path().exists()")))
v("bug-long-name", {"C32"}, (HID, "    name.starts_with('.') || name == \"__pycache__\" || name.len() > 64\n"))
v("bug-names-break", {"C32"}, (BODY, '''    let mut test_files = Vec::new();
    if paths.is_empty() {
        test_files = collect_test_files_in_dir(root, patterns);
    }
    for name in paths {
        let full_path = root.join(name);
        if full_path.is_dir() {
            test_files.extend(collect_test_files_in_dir(&full_path, patterns));
        } else if full_path.is_file() && is_test_file(&full_path, patterns) {
            test_files.push(full_path);
        } else {
            break;
        }
    }
'''))
