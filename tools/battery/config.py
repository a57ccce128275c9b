C = "src/config.rs"
P = "src/pyo3.rs"
S = "src/collection/nodes.rs"
D = "src/collection/config.rs"
N = "src/native_runner.rs"
VARIANTS = []
ok = set()
B = {"C29"}


def v(name, want, *edits, f=C):
    fs = {}
    for e in edits:
        if len(e) == 3:
            fs.setdefault(e[0], []).append(e[1:])
        else:
            fs.setdefault(f, []).append(e)
    VARIANTS.append(("cf-" + name, fs, set(want)))


EXISTS = '''    if !pyproject_path.exists() {
        debug!("No pyproject.toml found at {pyproject_path:?}");
        return PytestConfig::default();
    }

'''
CONTENT = '''    let content = match std::fs::read_to_string(&pyproject_path) {
        Ok(content) => content,
        Err(e) => {
            debug!("Failed to read pyproject.toml: {e}");
            return PytestConfig::default();
        }
    };
'''
PARSE = '''    let toml_value: Value = match toml::from_str(&content) {
        Ok(value) => value,
        Err(e) => {
            debug!("Failed to parse pyproject.toml: {e}");
            return PytestConfig::default();
        }
    };
'''
INI = '''    let ini_options = toml_value
        .get("tool")
        .and_then(|t| t.get("pytest"))
        .and_then(|p| p.get("ini_options"));
'''


def block(k):
    dbg = '''        debug!("Found testpaths in pyproject.toml: {:?}", config.testpaths);
''' if k == "testpaths" else '''        debug!(
            "Found %s in pyproject.toml: {:?}",
            config.%s
        );
''' % (k, k)
    val = "testpaths.into_iter().map(PathBuf::from).collect()" if k == "testpaths" else k
    return '''    if let Some(%s) = ini_options
        .and_then(|i| i.get("%s"))
        .and_then(setting_values)
    {
        config.%s = %s;
%s    }
''' % (k, k, k, val, dbg)


TP, PF, PC, PN = (block(k) for k in ("testpaths", "python_files", "python_classes", "python_functions"))
VALS = '''    match value {
        Value::Array(values) => Some(
            values
                .iter()
                .filter_map(|v| v.as_str())
                .map(String::from)
                .collect(),
        ),
        Value::String(values) => Some(values.split_whitespace().map(String::from).collect()),
        _ => None,
    }
'''
ARR = '''            values
                .iter()
                .filter_map(|v| v.as_str())
                .map(String::from)
                .collect(),
'''
DEFAULTMUT = "    let mut config = PytestConfig::default();\n"
ALL = DEFAULTMUT + "\n" + INI + "\n" + TP + "\n" + PF + "\n" + PC + "\n" + PN + "\n    config\n}"

# ---- refactorings
v("no-exists", ok, (EXISTS, ""))
v("is-file", ok, ("if !pyproject_path.exists()", "if !pyproject_path.is_file()"))
v("let-else", ok, (CONTENT, '''    let Ok(content) = std::fs::read_to_string(&pyproject_path) else {
        return PytestConfig::default();
    };
'''))
v("parse", ok, (PARSE, '''    let Ok(toml_value) = content.parse::<Value>() else {
        return PytestConfig::default();
    };
'''))
v("for-values", ok, (VALS, '''    let mut out = Vec::new();
    match value {
        Value::Array(values) => {
            for v in values {
                if let Some(s) = v.as_str() {
                    out.push(s.to_string());
                }
            }
        }
        Value::String(values) => {
            for s in values.split_whitespace() {
                out.push(s.to_string());
            }
        }
        _ => return None,
    }
    Some(out)
'''))
v("continue", ok, (VALS, '''    let mut out = Vec::new();
    match value {
        Value::Array(values) => {
            for v in values {
                let Value::String(s) = v else {
                    continue;
                };
                out.push(s.clone());
            }
        }
        Value::String(values) => out.extend(values.split_whitespace().map(String::from)),
        _ => return None,
    }
    Some(out)
'''))
v("as-array", ok, (VALS, '''    if let Some(values) = value.as_array() {
        return Some(values.iter().filter_map(Value::as_str).map(str::to_string).collect());
    }
    let text = value.as_str()?;
    Some(text.split_whitespace().map(str::to_owned).collect())
'''))
v("is-str", ok, (VALS, '''    if let Some(text) = value.as_str() {
        Some(text.split_whitespace().map(String::from).collect())
    } else {
        value
            .as_array()
            .map(|values| values.iter().filter_map(|v| v.as_str().map(String::from)).collect())
    }
'''))
v("index-loop", ok, (ARR, '''            (0..values.len())
                .filter_map(|i| values[i].as_str())
                .map(String::from)
                .collect(),
'''))
v("helper", ok, (ALL, '''    let ini_options = toml_value
        .get("tool")
        .and_then(|t| t.get("pytest"))
        .and_then(|p| p.get("ini_options"));
    let read = |key: &str| -> Vec<String> {
        ini_options
            .and_then(|i| i.get(key))
            .and_then(setting_values)
            .unwrap_or_default()
    };
    PytestConfig {
        testpaths: read("testpaths").into_iter().map(PathBuf::from).collect(),
        python_files: read("python_files"),
        python_classes: read("python_classes"),
        python_functions: read("python_functions"),
    }
}'''))
v("helper-fn", ok, (ALL, '''    let Some(ini_options) = toml_value
        .get("tool")
        .and_then(|t| t.get("pytest"))
        .and_then(|p| p.get("ini_options"))
    else {
        return PytestConfig::default();
    };
    PytestConfig {
        python_functions: values_of(ini_options, "python_functions"),
        python_classes: values_of(ini_options, "python_classes"),
        python_files: values_of(ini_options, "python_files"),
        testpaths: values_of(ini_options, "testpaths")
            .iter()
            .map(PathBuf::from)
            .collect(),
    }
}

fn values_of(table: &Value, key: &str) -> Vec<String> {
    match table.get(key) {
        Some(v) => setting_values(v).unwrap_or_default(),
        None => Vec::new(),
    }
}'''))
v("as-table", ok, (INI, '''    let ini_options = toml_value
        .as_table()
        .and_then(|d| d.get("tool"))
        .and_then(|t| t.as_table())
        .and_then(|t| t.get("pytest"))
        .and_then(|p| p.as_table())
        .and_then(|p| p.get("ini_options"));
'''))
v("iflet-chain", ok, (INI, '''    let mut ini_options = None;
    if let Some(tool) = toml_value.get("tool") {
        if let Some(pytest) = tool.get("pytest") {
            ini_options = pytest.get("ini_options");
        }
    }
'''))
v("early-none", ok, (INI, INI + '''    if ini_options.is_none() {
        return config;
    }
'''))
v("match-key", ok, (PF, '''    match ini_options.and_then(|i| i.get("python_files")) {
        Some(v) => {
            if let Some(list) = setting_values(v) {
                config.python_files = list;
            }
        }
        None => {}
    }
'''))
v("reordered", ok, (TP, ""), ("    config\n}", TP + "\n    config\n}"))
v("keys-loop", ok, (PC + "\n" + PN, '''    for key in ["python_classes", "python_functions"] {
        let list = ini_options
            .and_then(|i| i.get(key))
            .and_then(setting_values)
            .unwrap_or_default();
        if key == "python_classes" {
            config.python_classes = list;
        } else {
            config.python_functions = list;
        }
    }
'''))
v("inline-join", ok, ('    let pyproject_path = root_path.join("pyproject.toml");', '    let mut pyproject_path = root_path.to_path_buf();\n    pyproject_path.push("pyproject.toml");'))
v("const-name", ok, ('root_path.join("pyproject.toml")', 'root_path.join(PYPROJECT)'), ("/// Pytest configuration from", 'const PYPROJECT: &str = "pyproject.toml";\n\n/// Pytest configuration from'))
v("tp-loop", ok, ("        config.testpaths = testpaths.into_iter().map(PathBuf::from).collect();\n", '''        for p in testpaths {
            config.testpaths.push(PathBuf::from(p));
        }
'''))
v("extend", ok, ("        config.python_files = python_files;\n", "        config.python_files.extend(python_files);\n"))
v("replace", ok, ("        config.python_files = python_files;\n", "        let _ = std::mem::replace(&mut config.python_files, python_files);\n"))
v("split-collect", ok, ("values.split_whitespace().map(String::from).collect()", "values.split_ascii_whitespace().map(|s| s.to_owned()).collect::<Vec<_>>()"))

# ---- bugs
v("key-swap", B, ('i.get("python_classes")', 'i.get("python_functions")'))
v("field-swap", B, ("config.python_classes = python_classes;", "config.python_functions = python_classes;"))
v("typo", B, ('i.get("python_files")', 'i.get("python-files")'))
v("no-ini", B, ('.and_then(|p| p.get("ini_options"))', ''))
v("pytest-only", B, ('        .get("tool")\n        .and_then(|t| t.get("pytest"))', '        .get("pytest")'))
v("rtest", B, ('.and_then(|t| t.get("pytest"))', '.and_then(|t| t.get("rtest"))'))
v("cwd-file", B, ('root_path.join("pyproject.toml")', 'PathBuf::from("pyproject.toml")'))
v("parent-file", B, ('root_path.join("pyproject.toml")', 'root_path.parent().unwrap_or(root_path).join("pyproject.toml")'))
v("ini-file", B, ('root_path.join("pyproject.toml")', 'root_path.join("pytest.toml")'))
v("first", B, (".filter_map(|v| v.as_str())", ".filter_map(|v| v.as_str())\n                .take(1)"))
v("skip", B, (".filter_map(|v| v.as_str())", ".skip(1)\n                .filter_map(|v| v.as_str())"))
v("lower", B, ("                .map(String::from)\n                .collect(),", "                .map(|s| s.to_lowercase())\n                .collect(),"))
v("dotted", B, (".filter_map(|v| v.as_str())", ".filter_map(|v| v.as_str())\n                .filter(|s| !s.starts_with('_'))"))
v("map-while", B, (".filter_map(|v| v.as_str())", ".map_while(|v| v.as_str().filter(|s| s.contains('*')))"))
v("no-string", B, ("Value::String(values) => Some(values.split_whitespace().map(String::from).collect()),", ""))
v("one-string", B, ("Some(values.split_whitespace().map(String::from).collect())", "Some(vec![values.clone()])"))
v("malformed-all", B, (PF, '''    match ini_options.and_then(|i| i.get("python_files")) {
        Some(value) => match setting_values(value) {
            Some(list) => config.python_files = list,
            None => return PytestConfig::default(),
        },
        None => {}
    }
'''))
v("malformed-rest", B, (TP, TP.replace("    }\n", '''    } else if ini_options.and_then(|i| i.get("testpaths")).is_some() {
        return config;
    }
''', 1) if False else '''    if let Some(value) = ini_options.and_then(|i| i.get("testpaths")) {
        match setting_values(value) {
            Some(list) => config.testpaths = list.into_iter().map(PathBuf::from).collect(),
            None => return config,
        }
    }
'''))
v("absent-rest", B, (PF, '''    let Some(python_files) = ini_options
        .and_then(|i| i.get("python_files"))
        .and_then(setting_values)
    else {
        return config;
    };
    config.python_files = python_files;
'''))
v("nested-if", B, (PC + "\n" + PN, PC.replace("        debug!", '''        if let Some(python_functions) = ini_options
            .and_then(|i| i.get("python_functions"))
            .and_then(setting_values)
        {
            config.python_functions = python_functions;
        }
        debug!''')))
v("only-if-one", B, ("        config.python_files = python_files;\n", "        if python_files.len() == 1 {\n            config.python_files = python_files;\n        }\n"))
v("truncate", B, ("        config.python_functions = python_functions;\n", "        config.python_functions = python_functions;\n        config.python_functions.truncate(1);\n"))
v("dropped", B, (PN, ""))
v("both", B, ("        config.python_files = python_files;\n", "        config.python_files = python_files.clone();\n        config.python_classes = python_files;\n"), ("config.python_classes = python_classes;", "if config.python_classes.is_empty() {\n            config.python_classes = python_classes;\n        }"))
v("if-testpaths", B, (PC, "    if !config.testpaths.is_empty() {\n" + PC + "    }\n"))
v("tp-sort", B, ("        config.testpaths = testpaths.into_iter().map(PathBuf::from).collect();\n", "        config.testpaths = testpaths.into_iter().map(PathBuf::from).collect();\n        config.testpaths.sort();\n"))
v("tp-name", B, ("testpaths.into_iter().map(PathBuf::from).collect()", "testpaths.iter().filter_map(|p| Path::new(p).file_name()).map(PathBuf::from).collect()"))
# ---- uses
v("d-files", B, ('vec!["test_*.py".into(), "*_test.py".into()],', 'vec!["test_*.py".into()],'), f=D)
v("d-class", B, ('python_classes: vec!["Test*".into()],', 'python_classes: vec!["test*".into()],'), f=D)
v("s-swap", B, ("config.python_classes = pytest_config.python_classes;", "config.python_classes = pytest_config.python_functions;"), f=S)
v("s-cond", B, ("if !pytest_config.python_functions.is_empty() {", "if !pytest_config.python_classes.is_empty() {"), f=S)
v("s-not", B, ("if !pytest_config.python_files.is_empty() {", "if pytest_config.python_files.is_empty() {"), f=S)
v("s-tp", B, ("            if !pytest_config.testpaths.is_empty() {", "            if pytest_config.testpaths.len() == 1 {"), f=S)
v("s-abs", B, (".map(|p| self.rootpath.join(p))", ".cloned()"), f=S)
v("m-swap", B, ("python_classes: self.session().config.python_classes.clone(),", "python_classes: self.session().config.python_functions.clone(),"), f=S)
v("m-clone", ok, ("python_classes: self.session().config.python_classes.clone(),", "python_classes: self.session().config.python_classes.to_vec(),"), f=S)
v("p-swap", B, ("                pytest_config.python_classes\n", "                pytest_config.python_files.clone()\n"), f=P)
v("p-default", B, ("let python_functions = if pytest_config.python_functions.is_empty() {\n                default_python_functions()", "let python_functions = if pytest_config.python_functions.is_empty() {\n                default_python_classes()"), f=P)
v("p-cond", B, ("let python_functions = if pytest_config.python_functions.is_empty()", "let python_functions = if pytest_config.python_classes.is_empty()"), f=P)
v("p-const", B, ("let test_files = collect_test_files(&rootpath, &scan_paths, &python_files);", "let test_files = collect_test_files(&rootpath, &scan_paths, &default_python_files());"), f=P)
v("p-fields", B, ("                python_classes,\n                python_functions,\n", "                python_classes: python_functions.clone(),\n                python_functions: python_classes,\n"), f=P)
v("p-nodefault", ok, ('''let python_classes = if pytest_config.python_classes.is_empty() {
                default_python_classes()
            } else {
                pytest_config.python_classes
            };''', "let python_classes = pytest_config.python_classes.clone();"), f=P)
v("p-fn", ok, ('''let python_classes = if pytest_config.python_classes.is_empty() {
                default_python_classes()
            } else {
                pytest_config.python_classes
            };''', "let python_classes = or_default(pytest_config.python_classes, default_python_classes);"),
  ("fn handle_collection_error(", '''fn or_default(values: Vec<String>, default: fn() -> Vec<String>) -> Vec<String> {
    if values.is_empty() {
        default()
    } else {
        values
    }
}

fn handle_collection_error('''), f=P)
v("n-default", B, ('vec!["Test*".into()]', 'vec!["Test".into()]'), f=N)
v("doc-fn", ok, (EXISTS + CONTENT, ""), (PARSE, '''    let Some(toml_value) = document(root_path) else {
        return PytestConfig::default();
    };
'''), ('    let pyproject_path = root_path.join("pyproject.toml");\n', ""), ("/// Read pytest configuration from", '''/// The parsed pyproject.toml of a project
fn document(root: &Path) -> Option<Value> {
    let path = root.join("pyproject.toml");
    let content = std::fs::read_to_string(&path)
        .map_err(|e| debug!("Failed to read {path:?}: {e}"))
        .ok()?;
    toml::from_str(&content).ok()
}

/// Read pytest configuration from'''))
v("try-fold", ok, (INI, '''    let ini_options = ["tool", "pytest", "ini_options"]
        .iter()
        .try_fold(&toml_value, |value, key| value.get(key));
'''))
v("question", ok, (INI, '''    fn section(document: &Value) -> Option<&Value> {
        let tool = document.get("tool")?;
        let pytest = tool.get("pytest")?;
        pytest.get("ini_options")
    }
    let ini_options = section(&toml_value);
'''))
v("struct-update", ok, (DEFAULTMUT + "\n", "    let mut config = PytestConfig {\n        testpaths: Vec::new(),\n        ..PytestConfig::default()\n    };\n"))
v("is-some", ok, (PF, '''    let python_files = ini_options.and_then(|i| i.get("python_files"));
    if python_files.is_some() {
        if let Some(list) = python_files.and_then(setting_values) {
            config.python_files = list;
        }
    }
'''))
v("guarded-assign", ok, ("        config.python_files = python_files;\n", "        if !python_files.is_empty() {\n            config.python_files = python_files;\n        }\n"))
v("keys-const", ok, ('i.get("python_files")', 'i.get(PYTHON_FILES)'), ("/// Pytest configuration from", 'const PYTHON_FILES: &str = "python_files";\n\n/// Pytest configuration from'))
v("try-into", ok, (VALS, '''    if let Value::String(text) = value {
        return Some(text.split_whitespace().map(String::from).collect());
    }
    let values = value.as_array()?;
    let mut out = Vec::with_capacity(values.len());
    for v in values {
        if !v.is_str() {
            continue;
        }
        out.push(v.as_str().unwrap_or_default().to_string());
    }
    Some(out)
'''))
