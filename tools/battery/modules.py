W = "python/rtest/worker/runner.py"
NAME = '''    module_name = str(rel_path).replace("/", ".").replace("\\\\", ".")
    if module_name.endswith(".py"):
        module_name = module_name[:-3]
'''
PRE = '    module_name = f"_rtest_module_.{module_name}"\n'
REG = "    sys.modules[module_name] = module\n"
EXE = "    spec.loader.exec_module(module)\n"
POP = '''    for loaded_module_name in loaded_modules:
        sys.modules.pop(loaded_module_name, None)
'''
APP = '''            module_name: str = module.__name__
            loaded_modules.append(module_name)
'''
DISC = '''            test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
            all_test_cases.extend(test_cases)
'''
RUNL = '''    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)

'''
SPEC = "    spec = importlib.util.spec_from_file_location(module_name, file_path)\n"


def v(name, want, *edits):
    return ("md-" + name, {W: list(edits)}, want)


VARIANTS = [
    v("rf-suffix", [], (NAME, '    module_name = str(rel_path.with_suffix("")).replace("/", ".").replace("\\\\", ".")\n')),
    v("rf-parts", [], (NAME, '    module_name = ".".join(rel_path.with_suffix("").parts)\n')),
    v("rf-parent", [], (NAME, '    module_name = ".".join([*rel_path.parent.parts, rel_path.stem])\n')),
    v("rf-parent2", [], (NAME, '    module_name = str(rel_path.parent).replace("/", ".") + "." + rel_path.stem\n')),
    v("rf-removesuffix", [], (NAME, '    module_name = rel_path.as_posix().removesuffix(".py").replace("/", ".")\n')),
    v("rf-one", [], (NAME + "\n    # Add prefix to avoid collisions with installed packages\n" + PRE, '    module_name = "_rtest_module_." + str(rel_path).removesuffix(".py").replace("/", ".").replace("\\\\", ".")\n')),
    v("rf-const", [], (PRE, '    module_name = f"{_PREFIX}.{module_name}"\n'), ("def _import_module_from_file", '_PREFIX = "_rtest_module_"\n\n\ndef _import_module_from_file')),
    v("rf-helper", [], (NAME, "    module_name = _dotted(rel_path)\n"), ("def _import_module_from_file", '''def _dotted(path: Path) -> str:
    name = str(path).replace("/", ".").replace("\\\\", ".")
    return name[:-3] if name.endswith(".py") else name


def _import_module_from_file''')),
    v("rf-del", [], (POP, '''    for loaded_module_name in loaded_modules:
        if loaded_module_name in sys.modules:
            del sys.modules[loaded_module_name]
''')),
    v("rf-modules", [], (APP, "            loaded_modules.append(module)\n"), (POP, '''    for loaded in loaded_modules:
        sys.modules.pop(loaded.__name__, None)
'''), ("loaded_modules: list[str]", "loaded_modules: list[ModuleType]")),
    v("rf-set", [], (APP, "            loaded_modules.add(module.__name__)\n"), ("loaded_modules: list[str] = []", "loaded_modules: set[str] = set()")),
    v("rf-comp", [], (APP, "            loaded.append(module)\n"), ("    loaded_modules: list[str] = []\n", "    loaded: list[ModuleType] = []\n"), (POP, "    loaded_modules = [m.__name__ for m in loaded]\n" + POP)),
    v("rf-after", [], (POP, ""), ("    has_failures = any(", POP + "    has_failures = any(")),
    v("rf-finally", [], (RUNL, '''    try:
        for test_case in all_test_cases:
            result = _run_single_test(test_case)
            results.append(result)
    finally:
        for loaded_module_name in loaded_modules:
            sys.modules.pop(loaded_module_name, None)

'''), (POP, "")),
    v("rf-cleanup", [], (POP, "    _forget(loaded_modules)\n"), ("def run_tests(\n", '''def _forget(names: list[str]) -> None:
    for name in names:
        sys.modules.pop(name, None)


def run_tests(
''')),
    v("rf-loader", [], (EXE, "    loader = spec.loader\n    loader.exec_module(module)\n")),
    v("stem", ["C28"], (NAME, "    module_name = file_path.stem\n")),
    v("stem2", ["C28"], (NAME, '    module_name = rel_path.name.removesuffix(".py")\n')),
    v("parent", ["C28"], (NAME, '    module_name = f"{rel_path.parent.name}.{rel_path.stem}"\n')),
    v("lastparts", ["C28"], (NAME, '    module_name = ".".join(rel_path.with_suffix("").parts[-2:])\n')),
    v("noprefix", ["C28"], (PRE, "")),
    v("cached", ["C28"], (SPEC, '''    if module_name in sys.modules:
        return sys.modules[module_name]

''' + SPEC)),
    v("cached2", ["C28"], (SPEC, '''    cached = sys.modules.get(module_name)
    if cached is not None:
        return cached

''' + SPEC)),
    v("unreg", ["C28"], (REG, "")),
    v("late", ["C28"], (REG + EXE, EXE + REG)),
    v("dropafter", ["C28"], (EXE, EXE + "    sys.modules.pop(module_name, None)\n")),
    v("wrongreg", ["C28"], (REG, "    sys.modules[file_path.stem] = module\n")),
    v("popearly", ["C28"], (POP, ""), ("    all_test_cases.sort(", POP + "    all_test_cases.sort(")),
    v("popinloop", ["C28"], (DISC, DISC + "            sys.modules.pop(module_name, None)\n"), (POP, "")),
    v("popbetween", ["C28"], (RUNL, '''    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)
        sys.modules.pop(test_case.func.__module__, None)

''')),
    v("never", ["C28"], (POP, "")),
    v("lateappend", ["C28"], (APP, ""), (DISC, DISC + "            loaded_modules.append(module.__name__)\n")),
    v("onlytests", ["C28"], (APP, "            module_name: str = module.__name__\n"), (DISC, DISC + "            if test_cases:\n                loaded_modules.append(module_name)\n")),
    v("first", ["C28"], (POP, POP.replace("in loaded_modules:", "in loaded_modules[:-1]:"))),
    v("wrongname", ["C28"], (APP, "            loaded_modules.append(file_path.stem)\n")),
    v("dirpath", ["C28"], (SPEC, '    spec = importlib.util.spec_from_file_location(module_name, Path(file_path.name))\n')),
]
