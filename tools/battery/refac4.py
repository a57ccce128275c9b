"""Larger rewritings of the Python worker that change no behaviour: phases, helpers, generators."""
M, W, RS, MAIN = "python/rtest/mark.py", "python/rtest/worker/runner.py", "python/rtest/raises.py", "python/rtest/worker/__main__.py"
VARIANTS = []


def v(name, f, *reps, want=None):
    VARIANTS.append(("r4-" + name, {f: list(reps)}, {want} if want else set()))


HEAD = '''    all_test_cases: list[TestCase] = []
    import_errors: list[TestResult] = []
    loaded_modules: list[str] = []

'''
LOOP = '''    for file_path in test_files:
        try:
            module: ModuleType = _import_module_from_file(file_path.resolve(), root.resolve())
            module_name: str = module.__name__
            loaded_modules.append(module_name)
            test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
            all_test_cases.extend(test_cases)
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
            try:
                rel_path = str(file_path.relative_to(root))
            except ValueError:
                rel_path = str(file_path)

            import_errors.append(
                TestResult(
                    nodeid=f"{rel_path}::IMPORT_ERROR",
                    outcome="error",
                    duration_ms=0.0,
                    error={"traceback": traceback.format_exc()},
                    error_type=type(e).__name__,
                )
            )

'''
v("load-phase", W, (HEAD + LOOP, '''    all_test_cases, import_errors, loaded_modules = _load_tests(test_files, root, python_classes, python_functions)

'''), ('''def run_tests(
    root''', '''def _load_tests(
    test_files: list[Path], root: Path, python_classes: list[str], python_functions: list[str]
) -> tuple[list[TestCase], list[TestResult], list[str]]:
''' + HEAD + LOOP + '''    return all_test_cases, import_errors, loaded_modules


def run_tests(
    root'''))
ONE = LOOP.replace("    for file_path in test_files:\n", "").replace("\n    ", "\n")[4:]
v("load-one", W, (LOOP, '''    for file_path in test_files:
        outcome = _load_file(file_path, root, python_classes, python_functions, loaded_modules)
        if isinstance(outcome, TestResult):
            import_errors.append(outcome)
        else:
            all_test_cases.extend(outcome)

'''), ('''def run_tests(
    root''', '''def _load_file(
    file_path: Path, root: Path, python_classes: list[str], python_functions: list[str], loaded_modules: list[str]
) -> list[TestCase] | TestResult:
    try:
        module = _import_module_from_file(file_path.resolve(), root.resolve())
        loaded_modules.append(module.__name__)
        return _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
        try:
            rel_path = str(file_path.relative_to(root))
        except ValueError:
            rel_path = str(file_path)
        return TestResult(
            nodeid=f"{rel_path}::IMPORT_ERROR",
            outcome="error",
            duration_ms=0.0,
            error={"traceback": traceback.format_exc()},
            error_type=type(e).__name__,
        )


def run_tests(
    root'''))
RELH = '''def _relative(path: Path, root: Path) -> Path:
    try:
        return path.relative_to(root)
    except ValueError:
        return path


@dataclass
class TestResult'''
v("relative", W, ('''            try:
                rel_path = str(file_path.relative_to(root))
            except ValueError:
                rel_path = str(file_path)

''', '''            rel_path = str(_relative(file_path, root))
'''), ('''    try:
        rel_path = str(file_path.relative_to(root))
    except ValueError:
        rel_path = str(file_path)

    rel_path = rel_path.replace("\\\\", "/")
''', '''    rel_path = str(_relative(file_path, root)).replace("\\\\", "/")
'''), ('''    try:
        rel_path = file_path.relative_to(root)
    except ValueError:
        rel_path = file_path

''', '''    rel_path = _relative(file_path, root)
'''), ("@dataclass\nclass TestResult", RELH))
v("is-relative", W, ('''            try:
                rel_path = str(file_path.relative_to(root))
            except ValueError:
                rel_path = str(file_path)

''', '''            rel_path = str(file_path.relative_to(root) if file_path.is_relative_to(root) else file_path)
'''))
NAMES = '''            seen_methods: set[str] = set()
            for base_class in inspect.getmro(class_obj):
                for method_name in base_class.__dict__:
                    if method_name in seen_methods:
                        continue
                    # Check if method matches any python_functions pattern
                    if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):
                        continue
                    method_obj: object = getattr(class_obj, method_name)
                    if not inspect.isfunction(method_obj):
                        continue
                    method_func: FunctionType = method_obj  # type: ignore[assignment]
                    seen_methods.add(method_name)

                    method_skip, method_skip_reason = _is_skipped(method_func)
                    skip = method_skip or class_skip
                    skip_reason = method_skip_reason if method_skip else class_skip_reason

                    for case_id, kwargs in expand_parametrize(method_func, class_obj):
                        suffix = get_case_nodeid_suffix(case_id)
                        nodeid = f"{rel_path}::{name}::{method_name}{suffix}"
                        test_cases.append(
                            TestCase(
                                nodeid=nodeid,
                                func=method_func,
                                kwargs=kwargs,
                                skip=skip,
                                skip_reason=skip_reason,
                                test_class=class_obj,
                                method_name=method_name,
                            )
                        )
'''
BODY = '''                method_skip, method_skip_reason = _is_skipped(method_func)
                skip = method_skip or class_skip
                skip_reason = method_skip_reason if method_skip else class_skip_reason

                for case_id, kwargs in expand_parametrize(method_func, class_obj):
                    suffix = get_case_nodeid_suffix(case_id)
                    nodeid = f"{rel_path}::{name}::{method_name}{suffix}"
                    test_cases.append(
                        TestCase(
                            nodeid=nodeid,
                            func=method_func,
                            kwargs=kwargs,
                            skip=skip,
                            skip_reason=skip_reason,
                            test_class=class_obj,
                            method_name=method_name,
                        )
                    )
'''
v("names-first", W, (NAMES, '''            method_names = dict.fromkeys(n for base_class in inspect.getmro(class_obj) for n in base_class.__dict__)
            for method_name in method_names:
                method_func = getattr(class_obj, method_name)
                if not _is_test_function(method_name, method_func, python_functions):
                    continue

''' + BODY))
v("methods-gen", W, (NAMES, '''            for method_name, method_func in _test_methods(class_obj, python_functions):
''' + BODY), ('''def _discover_tests_in_module(''', '''def _test_methods(class_obj: type, patterns: list[str]) -> Iterator[tuple[str, FunctionType]]:
    seen: set[str] = set()
    for base_class in class_obj.__mro__:
        for name in base_class.__dict__:
            if name in seen or not any(fnmatch.fnmatch(name, p) for p in patterns):
                continue
            func = getattr(class_obj, name)
            if inspect.isfunction(func):
                seen.add(name)
                yield name, func


def _discover_tests_in_module('''), ("from typing import Callable, Literal\n", "from typing import Callable, Iterator, Literal\n"))
v("methods-list", W, (NAMES, '''            for method_name, method_func in _test_methods(class_obj, python_functions):
''' + BODY), ('''def _discover_tests_in_module(''', '''def _test_methods(class_obj: type, patterns: list[str]) -> list[tuple[str, FunctionType]]:
    methods: dict[str, FunctionType] = {}
    for base_class in inspect.getmro(class_obj):
        for name in vars(base_class):
            if name not in methods:
                func = getattr(class_obj, name)
                if _is_test_function(name, func, patterns):
                    methods[name] = func
    return list(methods.items())


def _discover_tests_in_module('''))
v("class-phase", W, (NAMES, '''            test_cases.extend(
                _class_cases(rel_path, name, class_obj, class_skip, class_skip_reason, python_functions)
            )
'''), ('''def _discover_tests_in_module(''', '''def _class_cases(
    rel_path: str, name: str, class_obj: type, class_skip: bool, class_skip_reason: str, python_functions: list[str]
) -> list[TestCase]:
    from rtest.mark import expand_parametrize, get_case_nodeid_suffix

    test_cases: list[TestCase] = []
''' + NAMES.replace("\n        ", "\n")[8:] + '''    return test_cases


def _discover_tests_in_module('''))
v("marks-helper", W, ('''    pytest_marks: object = getattr(obj, "pytestmark", [])
    if not isinstance(pytest_marks, (list, tuple)):
        pytest_marks = [pytest_marks]  # a class may set a single mark
    for pytest_mark in pytest_marks:
''', '''    for pytest_mark in _marks(obj):
'''), ('''def _is_skipped(''', '''def _marks(obj: object) -> list[object]:
    marks = getattr(obj, "pytestmark", [])
    if isinstance(marks, (list, tuple)):
        return list(marks)
    return [marks]


def _is_skipped('''))
v("marks-next", W, ('''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) == "skip":
            func_name''', '''    skip_marks = [m for m in pytest_marks if getattr(m, "name", None) == "skip"]
    if skip_marks:
        pytest_mark = skip_marks[0]
        if True:
            func_name'''))
v("capture-cm", W, ('''        with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):
''', '''        with _captured(stdout_capture, stderr_capture):
'''), ('''def _run_single_test(''', '''@contextlib.contextmanager
def _captured(out: io.StringIO, err: io.StringIO) -> Iterator[None]:
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield


def _run_single_test('''), ("from typing import Callable, Literal\n", "from typing import Callable, Iterator, Literal\n"))
v("skip-result", W, ('''    if test_case.skip:
        return TestResult(
            nodeid=test_case.nodeid,
            outcome="skipped",
            duration_ms=0.0,
            error={"reason": test_case.skip_reason} if test_case.skip_reason else None,
        )
''', '''    if test_case.skip:
        error = None
        if test_case.skip_reason:
            error = {"reason": test_case.skip_reason}
        return TestResult(test_case.nodeid, "skipped", 0.0, error=error)
'''))
v("modules-del", W, ('''        sys.modules.pop(loaded_module_name, None)
''', '''        if loaded_module_name in sys.modules:
            del sys.modules[loaded_module_name]
'''))
v("write-text", W, ('''    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        for result in results:
            result_dict: dict[str, object] = asdict(result)
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
''', '''    text = "".join(json.dumps(asdict(result), ensure_ascii=False) + "\\n" for result in results)
    output_file.write_text(text, encoding="utf-8", errors="replace")
'''))
v("to-json", W, ('''            result_dict: dict[str, object] = asdict(result)
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
''', '''            f.write(result.to_json() + "\\n")
'''), ("    error_type: str | None = None  # Exception type name for structured matching\n", '''    error_type: str | None = None  # Exception type name for structured matching

    def to_json(self) -> str:
        return json.dumps(asdict(self), ensure_ascii=False)
'''))
v("case-run", W, ("        result = _run_single_test(test_case)\n", "        result = test_case.run()\n"), ('''    method_name: str = ""  # name of the method in its class, which need not be func.__name__
''', '''    method_name: str = ""  # name of the method in its class, which need not be func.__name__

    def run(self) -> TestResult:
        return _run_single_test(self)
'''))
v("tests-iter", W, ('''    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)
''', '''    index = 0
    while index < len(all_test_cases):
        results.append(_run_single_test(all_test_cases[index]))
        index += 1
'''))
v("mod-name", W, ('''    module_name = str(rel_path).replace("/", ".").replace("\\\\", ".")
    if module_name.endswith(".py"):
        module_name = module_name[:-3]

    # Add prefix to avoid collisions with installed packages
    module_name = f"_rtest_module_.{module_name}"
''', '''    dotted = re.sub(r"[/\\\\\\\\]", ".", str(rel_path))
    module_name = "_rtest_module_." + (dotted[: -len(".py")] if dotted.endswith(".py") else dotted)
'''), ("import json\n", "import json\nimport re\n"))
v("cases-nested", M, ('''        spec = ParametrizeSpec(
            argnames=parsed_argnames,
            argvalues=tuple(argvalues),
            ids=materialized_ids,
        )

''', '''        spec = ParametrizeSpec(parsed_argnames, tuple(argvalues), materialized_ids)

'''))
v("expand-early", M, ('''    if not specs:
        return [ExpandedCase("", {})]

    expanded_specs''', '''    if len(specs) == 0:
        return [ExpandedCase(case_id="", kwargs={})]

    expanded_specs'''))
v("expand-recursive", M, ('''    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
''', '''    result: list[ExpandedCase] = list(expanded_specs[0])
    for cases in expanded_specs[1:]:
        result = [
            ExpandedCase(f"{left.case_id}-{right.case_id}", {**left.kwargs, **right.kwargs})
            for left in result
            for right in cases
        ]
'''))
v("combine", M, ('''    for combo in itertools.product(*expanded_specs):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
''', '''    for combo in itertools.product(*expanded_specs):
        result.append(_combine(combo))
'''), ('''def expand_parametrize(''', '''def _combine(combo: tuple[ExpandedCase, ...]) -> ExpandedCase:
    merged: dict[str, object] = {}
    for case in combo:
        merged.update(case.kwargs)
    return ExpandedCase("-".join(case.case_id for case in combo), merged)


def expand_parametrize('''))
v("id-type", M, ('''    elif value is None or isinstance(value, (int, float, bool)):
        return str(value)
''', '''    elif value is None:
        return "None"
    elif isinstance(value, bool):
        return "True" if value else "False"
    elif isinstance(value, (int, float)):
        return str(value)
'''))

GEN = VARIANTS[[n for n, _, _ in VARIANTS].index("r4-methods-gen")]
VARIANTS.append(("r4-b-methods-gen", {W: [(a, b.replace("if name in seen or not any(fnmatch.fnmatch(name, p) for p in patterns):", "if name in seen or not name.startswith('test'):")) for a, b in GEN[1][W]]}, {"C22"}))
VARIANTS.append(("r4-b-methods-some", {W: [(a, b.replace("for p in patterns):", "for p in patterns[:1]):")) for a, b in GEN[1][W]]}, {"C22"}))
VARIANTS.append(("r4-b-methods-break", {W: [(a, b.replace("                yield name, func\n", "                yield name, func\n            else:\n                return\n")) for a, b in GEN[1][W]]}, {"C22"}))
