W = "python/rtest/worker/runner.py"
G = "src/collection/utils.rs"
A = "src/python_discovery/semantic_analyzer.rs"
P = "src/python_discovery/pattern.rs"
FNT = '''    """Check if an object is a test function based on patterns."""
    if not inspect.isfunction(obj):
        return False
    return any(fnmatch.fnmatch(name, p) for p in patterns)
'''
CLT = '''    """Check if an object is a test class based on patterns."""
    if not inspect.isclass(obj):
        return False
    return any(fnmatch.fnmatch(name, p) for p in patterns)
'''
METH = '''                    if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):
                        continue
'''
SEEN = '''                    if method_name in seen_methods:
                        continue
'''
MRO = '''            seen_methods: set[str] = set()
            for base_class in inspect.getmro(class_obj):
'''
TOP = '''    for name, obj in inspect.getmembers(module):
        if _is_test_function(name, obj, python_functions):
'''
ISF = '''                    if not inspect.isfunction(method_obj):
                        continue
'''
GM = '''        glob_pattern.matches(text)
    } else {'''
ITF = '''        for pattern in &self.config.python_functions {
            if pattern::matches(pattern, name) {
                return true;
            }
        }
        false'''
ITER = '''        self.config
            .python_functions
            .iter()
            .%s(|pattern| pattern::matches(pattern, name))'''
ITC = ITF.replace("python_functions", "python_classes")


def w(name, want, *edits):
    return ("nm-" + name, {W: list(edits)}, want)


def g(name, want, *edits):
    return ("nm-" + name, {G: list(edits)}, want)


def a(name, want, *edits):
    return ("nm-" + name, {A: list(edits)}, want)


VARIANTS = [
    w("rf-loop", [], (FNT, '''    if not inspect.isfunction(obj):
        return False
    for pattern in patterns:
        if fnmatch.fnmatch(name, pattern):
            return True
    return False
''')),
    w("rf-flag", [], (FNT, '''    matched = False
    for pattern in patterns:
        if fnmatch.fnmatch(name, pattern):
            matched = True
    return matched and inspect.isfunction(obj)
''')),
    w("rf-and", [], (FNT, "    return inspect.isfunction(obj) and any(fnmatch.fnmatch(name, p) for p in patterns)\n"), (CLT, "    return inspect.isclass(obj) and any(fnmatch.fnmatch(name, p) for p in patterns)\n")),
    w("rf-helper", [], (FNT, "    return inspect.isfunction(obj) and _matches_any(name, patterns)\n"), (CLT, "    return inspect.isclass(obj) and _matches_any(name, patterns)\n"),
      ("def _is_test_function(", '''def _matches_any(name: str, patterns: list[str]) -> bool:
    return any(fnmatch.fnmatch(name, p) for p in patterns)


def _is_test_function('''), (METH, '''                    if not _matches_any(method_name, python_functions):
                        continue
''')),
    w("rf-case", [], (FNT, FNT.replace("fnmatch.fnmatch", "fnmatch.fnmatchcase"))),
    w("rf-fast", [], (FNT, FNT.replace("    return any(", "    if name in patterns:\n        return True\n    return any("))),
    w("rf-vars", [], (TOP, TOP.replace("inspect.getmembers(module)", "sorted(vars(module).items())"))),
    w("rf-nested", [], (METH, ""), (ISF, ISF + METH)),
    w("rf-split", [], (TOP, '''    members = inspect.getmembers(module)
    for name, obj in members:
        if _is_test_function(name, obj, python_functions):
''')),
    w("rf-mro", [], ("inspect.getmro(class_obj):", "class_obj.__mro__:")),
    w("rf-object", [], ("                for method_name in base_class.__dict__:", "                if base_class is object:\n                    continue\n                for method_name in base_class.__dict__:")),
    w("rf-seenfirst", [], ("                    seen_methods.add(method_name)\n", ""), (METH, METH + "                    seen_methods.add(method_name)\n")),
    w("first", ["C22"], (FNT, FNT.replace("any(fnmatch.fnmatch(name, p) for p in patterns)", "fnmatch.fnmatch(name, patterns[0])"))),
    w("all", ["C22"], (FNT, FNT.replace("any(", "all("))),
    w("last", ["C22"], (FNT, '''    matched = False
    for pattern in patterns:
        matched = fnmatch.fnmatch(name, pattern)
    return matched and inspect.isfunction(obj)
''')),
    w("prefix", ["C22"], (FNT, FNT.replace("fnmatch.fnmatch(name, p)", 'name.startswith(p.rstrip("*"))'))),
    w("methprefix", ["C22"], (METH, METH.replace("fnmatch.fnmatch(method_name, p)", 'method_name.startswith(p.rstrip("*"))'))),
    w("methslice", ["C22"], (METH, METH.replace("in python_functions)", "in python_functions[:1])"))),
    w("methclass", ["C22"], (METH, METH.replace("in python_functions)", "in python_classes)"))),
    w("methnone", ["C22"], (METH, "")),
    w("methhard", ["C22"], (METH, '                    if not method_name.startswith("test"):\n                        continue\n')),
    w("methextra", ["C22"], (METH, METH.replace("if not any(", 'if not method_name.startswith("test") and not any('))),
    w("swap", ["C22"], ("_is_test_class(name, obj, python_classes)", "_is_test_class(name, obj, python_functions)")),
    w("imported", ["C22"], (TOP, TOP.replace("python_functions):", 'python_functions) and obj.__module__ == module.__name__:'))),
    w("qualname", ["C22"], (FNT, FNT.replace("fnmatch.fnmatch(name, p)", "fnmatch.fnmatch(obj.__name__, p)"))),
    w("private", ["C22"], (TOP, '''    for name, obj in inspect.getmembers(module):
        if name.startswith("_"):
            continue
        if _is_test_function(name, obj, python_functions):
''')),
    w("sharedseen", ["C22"], ("            seen_methods: set[str] = set()\n", ""), ("    test_cases: list[TestCase] = []\n\n    for name, obj", "    test_cases: list[TestCase] = []\n    seen_methods: set[str] = set()\n\n    for name, obj")),
    w("breakfirst", ["C22"], (METH, METH.replace("continue", "break"))),
    w("breakseen", ["C22"], (SEEN, SEEN.replace("continue", "break"))),
    w("mroslice", ["C22"], ("inspect.getmro(class_obj):", "inspect.getmro(class_obj)[:2]:")),
    w("lower", ["C22"], (FNT, FNT.replace("fnmatch.fnmatch(name, p)", "fnmatch.fnmatch(name.lower(), p.lower())"))),
    w("classname", ["C22"], (CLT, CLT.replace("fnmatch.fnmatch(name, p)", "fnmatch.fnmatch(obj.__name__, p)"))),
    g("g-rf-match", [], ('''    if let Ok(glob_pattern) = Pattern::new(pattern) {
        glob_pattern.matches(text)
    } else {''', '''    if let Some(matched) = Pattern::new(pattern).ok().map(|p| p.matches(text)) {
        matched
    } else {''')),
    g("g-rf-eq", [], ("    use glob::Pattern;\n", "    use glob::Pattern;\n\n    if pattern == text {\n        return true;\n    }\n")),
    g("g-rf-plain", [], ("    use glob::Pattern;\n", "    use glob::Pattern;\n\n    if !pattern.contains(['*', '?', '[']) {\n        return pattern == text;\n    }\n")),
    g("g-swap", ["C22"], (GM, GM.replace("matches(text)", "matches(pattern)"))),
    g("g-trim", ["C22"], ("Pattern::new(pattern)", 'Pattern::new(pattern.trim_start_matches("*"))')),
    g("g-prefix", ["C22"], ("    use glob::Pattern;\n", '''    use glob::Pattern;

    // Fast path for the common "prefix*" patterns
    if let Some(prefix) = pattern.strip_suffix('*') {
        return text.starts_with(prefix);
    }
''')),
    g("g-nonascii", ["C22"], ("    use glob::Pattern;\n", '''    use glob::Pattern;

    if text.starts_with('_') {
        return false;
    }
''')),
    ("nm-p-literal", {P: [("    glob_match(pattern, name)", '''    match pattern.strip_suffix('*') {
        Some(prefix) => name.starts_with(prefix),
        None => glob_match(pattern, name),
    }''')]}, ["C22"]),
    ("nm-p-swapped", {P: [("    glob_match(pattern, name)", "    glob_match(name, pattern)")]}, ["C22"]),
    a("a-rf-any", [], (ITF, ITER % "any")),
    a("a-all", ["C22"], (ITF, ITER % "all")),
    a("a-first", ["C22"], (ITF, ITER.replace(".iter()", ".iter()\n            .take(1)") % "any")),
    a("a-kind", ["C22"], (ITF, ITF.replace("python_functions", "python_classes"))),
    a("a-break", ["C22"], (ITF, ITF.replace("            }\n        }\n        false", "            }\n            break;\n        }\n        false"))),
    a("a-unguarded", ["C22"], ('''                if self.is_test_function(func.name.as_str()) {
                    let cases_expansion''', '''                if self.is_test_function(func.name.as_str()) || func.is_async {
                    let cases_expansion''')),
    a("a-sync", ["C22"], ('''                if self.is_test_function(func.name.as_str()) {
                    let cases_expansion''', '''                if self.is_test_function(func.name.as_str()) && !func.is_async {
                    let cases_expansion''')),
    a("a-noinit", ["C22"], ('''        if self.class_has_init(class_def) {
            return Ok(true);
        }
''', "")),
    a("a-silent", ["C22"], ("            self.warnings.push(warning);\n", "            let _ = warning;\n")),
    a("a-firstbase", ["C22"], ('''                        if self.base_class_has_init(&resolved, module_resolver)? {
                            return Ok(true);
                        }
''', '''                        return self.base_class_has_init(&resolved, module_resolver);
''')),
]
