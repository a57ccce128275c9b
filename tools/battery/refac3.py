"""Rewritings of the Python package that change no behaviour."""
M, W, RS, MAIN = "python/rtest/mark.py", "python/rtest/worker/runner.py", "python/rtest/raises.py", "python/rtest/worker/__main__.py"
VARIANTS = []


def v(name, f, *reps, want=None):
    VARIANTS.append(("rz-" + name, {f: list(reps)}, {want} if want else set()))


# ---- worker/runner.py ----
REL = '''            try:
                rel_path = str(file_path.relative_to(root))
            except ValueError:
                rel_path = str(file_path)

            import_errors.append(
                TestResult(
                    nodeid=f"{rel_path}::IMPORT_ERROR",
                    outcome="error",
                    duration_ms=0.0,
                    error={"traceback": traceback.format_exc()},
                    error_type=type(e).__name__,
                )
            )
'''
v("import-helper", W, (REL, "            import_errors.append(_import_error(file_path, root, e))\n"), ('''def run_tests(
    root''', '''def _import_error(file_path: Path, root: Path, exc: BaseException) -> TestResult:
    """The result that stands for a file that cannot be imported."""
    trace = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    try:
        rel_path = str(file_path.relative_to(root))
    except ValueError:
        rel_path = str(file_path)
    return TestResult(
        nodeid=f"{rel_path}::IMPORT_ERROR",
        outcome="error",
        duration_ms=0.0,
        error={"traceback": trace},
        error_type=type(exc).__name__,
    )


def run_tests(
    root'''))
v("load-helper", W, ('''            module: ModuleType = _import_module_from_file(file_path.resolve(), root.resolve())
            module_name: str = module.__name__
            loaded_modules.append(module_name)
            test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
            all_test_cases.extend(test_cases)
''', '''            module = _import_module_from_file(file_path.resolve(), root.resolve())
            loaded_modules.append(module.__name__)
            all_test_cases += _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
'''))
v("else-extend", W, ('''            all_test_cases.extend(test_cases)
        except KeyboardInterrupt:''', '''        except KeyboardInterrupt:'''), (REL, REL + '''        else:
            for test_case in test_cases:
                all_test_cases.append(test_case)
'''))
RUN = '''    results: list[TestResult] = []
    results.extend(import_errors)

    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)
'''
v("results-comp", W, (RUN, "    results = import_errors + [_run_single_test(test_case) for test_case in all_test_cases]\n"))
v("results-star", W, (RUN, "    results: list[TestResult] = [*import_errors, *map(_run_single_test, all_test_cases)]\n"))
v("results-same-list", W, (RUN, '''    results = list(import_errors)
    results.extend(_run_single_test(test_case) for test_case in all_test_cases)
'''))
v("sorted", W, ("    all_test_cases.sort(key=lambda tc: tc.nodeid)\n", '    all_test_cases = sorted(all_test_cases, key=operator.attrgetter("nodeid"))\n'), ("import json\n", "import json\nimport operator\n"))
OUT = '''    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        for result in results:
            result_dict: dict[str, object] = asdict(result)
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
'''
v("out-lines", W, (OUT, '''    lines = [json.dumps(asdict(result), ensure_ascii=False) + "\\n" for result in results]
    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        f.writelines(lines)
'''))
v("out-helper", W, ("    output_file.parent.mkdir(parents=True, exist_ok=True)\n", "    _write_results(output_file, results)\n"), ("    # Lone surrogates in captured output have no JSON form that the runner can read\n" + OUT, ""), ('''def run_tests(
    root''', '''def _write_results(path: Path, results: list[TestResult]) -> None:
    path.parent.mkdir(parents=True, exist_ok=True)
    with open(path, "w", encoding="utf-8", errors="replace") as out:
        for result in results:
            out.write(f"{json.dumps(asdict(result), ensure_ascii=False)}\\n")


def run_tests(
    root'''))
v("out-print", W, (OUT, '''    with output_file.open(mode="w", encoding="utf-8", errors="replace") as f:
        for result in results:
            print(json.dumps(asdict(result), ensure_ascii=False), file=f)
'''))
v("out-json-dump", W, (OUT, '''    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        for result in results:
            json.dump(asdict(result), f, ensure_ascii=False)
            f.write("\\n")
'''))
v("fail-loop", W, ('''    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0
''', '''    for r in results:
        if r.outcome == "failed" or r.outcome == "error":
            return 1
    return 0
'''))
v("fail-all", W, ('''    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0
''', '''    return int(not all(r.outcome in ("passed", "skipped") for r in results))
'''))
v("fail-set", W, ('''    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0
''', '''    outcomes = {r.outcome for r in results}
    return 1 if outcomes & {"failed", "error"} else 0
'''))
FAILS = '''    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0
'''
v("fail-list", W, (FAILS, '''    outcomes = [r.outcome for r in results]
    return 1 if "failed" in outcomes or "error" in outcomes else 0
'''))
v("fail-const", W, (FAILS, "    return 1 if [r for r in results if r.outcome in FAILING] else 0\n"), ("@dataclass\nclass TestResult", 'FAILING = frozenset({"failed", "error"})\n\n\n@dataclass\nclass TestResult'))
v("fail-sum", W, (FAILS, "    failures = sum(1 for r in results if r.outcome not in (\"passed\", \"skipped\"))\n    return 1 if failures > 0 else 0\n"))
v("fail-next", W, (FAILS, "    return next((1 for r in results if r.outcome in {\"failed\", \"error\"}), 0)\n"))
v("fail-map", W, (FAILS, "    return min(1, sum(r.outcome in (\"failed\", \"error\") for r in results))\n"))
v("fail-method", W, (FAILS, "    return int(any(r.is_failure() for r in results))\n"), ("    error_type: str | None = None  # Exception type name for structured matching\n", '''    error_type: str | None = None  # Exception type name for structured matching

    def is_failure(self) -> bool:
        return self.outcome in ("failed", "error")
'''))
v("fail-prop", W, (FAILS, "    return 0 if all(r.ok for r in results) else 1\n"), ("    error_type: str | None = None  # Exception type name for structured matching\n", '''    error_type: str | None = None  # Exception type name for structured matching

    @property
    def ok(self) -> bool:
        return self.outcome not in ("failed", "error")
'''))
v("defaults-or", W, ('''    if python_classes is None:
        python_classes = ["Test*"]
    if python_functions is None:
        python_functions = ["test*"]
''', '''    python_classes = ["Test*"] if python_classes is None else python_classes
    python_functions = ["test*"] if python_functions is None else python_functions
'''))
v("syspath-helper", W, ('''    root_str = str(root.resolve())
    if root_str not in sys.path:
        sys.path.insert(0, root_str)

    # Add all test directories to sys.path for sibling imports
    test_dirs = {str(f.parent.resolve()) for f in test_files}
    for test_dir in sorted(test_dirs):
        if test_dir not in sys.path:
            sys.path.insert(0, test_dir)
''', '''    _add_to_path(str(root.resolve()))

    # Add all test directories to sys.path for sibling imports
    for test_dir in sorted({str(f.parent.resolve()) for f in test_files}):
        _add_to_path(test_dir)
'''), ('''def run_tests(
    root''', '''def _add_to_path(directory: str) -> None:
    if directory in sys.path:
        return
    sys.path.insert(0, directory)


def run_tests(
    root'''))
CAP = '''        with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):
            if test_case.test_class is not None:
                instance: object = test_case.test_class()
                setup: Callable[[], object] | None = getattr(instance, "setup_method", None) or getattr(
                    instance, "setUp", None
                )
                if setup is not None:
                    setup()
                try:
                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
                    bound_method(**test_case.kwargs)
                finally:
                    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                        instance, "tearDown", None
                    )
                    if teardown is not None:
                        teardown()
            else:
                test_case.func(**test_case.kwargs)
'''
v("call-helper", W, (CAP, '''        with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):
            _call(test_case)
'''), ('''def _run_single_test(''', '''def _call(test_case: TestCase) -> None:
    if test_case.test_class is None:
        test_case.func(**test_case.kwargs)
        return
    instance: object = test_case.test_class()
    setup = getattr(instance, "setup_method", None) or getattr(instance, "setUp", None)
    if setup is not None:
        setup()
    try:
        getattr(instance, test_case.method_name)(**test_case.kwargs)
    finally:
        teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
        if teardown is not None:
            teardown()


def _run_single_test('''))
v("with-nested", W, (CAP, CAP.replace("        with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):\n", "        with contextlib.ExitStack() as stack:\n            stack.enter_context(contextlib.redirect_stdout(stdout_capture))\n            stack.enter_context(contextlib.redirect_stderr(stderr_capture))\n")))
v("hook-helper", W, ('''                setup: Callable[[], object] | None = getattr(instance, "setup_method", None) or getattr(
                    instance, "setUp", None
                )
                if setup is not None:
                    setup()
''', '''                _run_hook(instance, "setup_method", "setUp")
'''), ('''                    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                        instance, "tearDown", None
                    )
                    if teardown is not None:
                        teardown()
''', '''                    _run_hook(instance, "teardown_method", "tearDown")
'''), ('''def _run_single_test(''', '''def _run_hook(instance: object, *names: str) -> None:
    for name in names:
        hook = getattr(instance, name, None)
        if hook:
            hook()
            return


def _run_single_test('''))
EXC = '''    except AssertionError as e:
        outcome = "failed"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
        outcome = "error"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
'''
v("exc-one", W, (EXC, '''    except KeyboardInterrupt:
        raise
    except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
        outcome = "failed" if isinstance(e, AssertionError) else "error"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
'''))
v("exc-one-if", W, (EXC, '''    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        outcome = "error"
        if isinstance(e, AssertionError):
            outcome = "failed"
        error_info = dict(traceback=traceback.format_exc())
        error_type = e.__class__.__name__
'''))
v("exc-format", W, (EXC, EXC.replace('error_info = {"traceback": traceback.format_exc()}', 'error_info = _describe(e)')), ('''def _run_single_test(''', '''def _describe(exc: BaseException) -> dict[str, str]:
    return {"traceback": "".join(traceback.format_exception(exc))}


def _run_single_test('''))
v("result-object", W, ('''    outcome = "passed"
    error_info: dict[str, str] | None = None
    error_type: str | None = None
    start_time''', '''    result = TestResult(nodeid=test_case.nodeid, outcome="passed", duration_ms=0.0)
    start_time'''), (EXC, EXC.replace("outcome =", "result.outcome =").replace("error_info =", "result.error =").replace("error_type =", "result.error_type =")), ('''    duration_ms = (time.perf_counter() - start_time) * 1000

    return TestResult(
        nodeid=test_case.nodeid,
        outcome=outcome,
        duration_ms=duration_ms,
        stdout=stdout_capture.getvalue(),
        stderr=stderr_capture.getvalue(),
        error=error_info,
        error_type=error_type,
    )
''', '''    result.duration_ms = (time.perf_counter() - start_time) * 1000
    result.stdout = stdout_capture.getvalue()
    result.stderr = stderr_capture.getvalue()
    return result
'''))
SK = '''    skip_flag: bool = bool(getattr(obj, "__rtest_skip__", False))
    if skip_flag:
        skip_reason_attr: str = str(getattr(obj, "__rtest_skip_reason__", ""))
        return True, skip_reason_attr
'''
v("skip-short", W, (SK, '''    if getattr(obj, "__rtest_skip__", False):
        return True, str(getattr(obj, "__rtest_skip_reason__", ""))
'''))
v("skip-reason-helper", W, ('''            mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
            reason_raw: object = mark_kwargs.get("reason", "")
            reason: str = str(reason_raw) if reason_raw else ""
            if not reason:
                mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
                if mark_args:
                    reason = str(mark_args[0])
            return True, reason
''', '''            return True, _skip_reason(pytest_mark)
'''), ('''def _is_skipped(''', '''def _skip_reason(mark: object) -> str:
    kwargs = getattr(mark, "kwargs", {})
    args = getattr(mark, "args", ())
    if kwargs.get("reason"):
        reason = str(kwargs["reason"])
        if reason:
            return reason
    return str(args[0]) if args else ""


def _is_skipped('''))
v("skip-continue", W, ('''        if getattr(pytest_mark, "name", None) == "skip":
            func_name: str = str(getattr(obj, "__name__", str(obj)))
            warnings.warn(
                SKIP_DEPRECATION_MSG.format(func_name=func_name),
                DeprecationWarning,
                stacklevel=4,
            )
            mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
            reason_raw: object = mark_kwargs.get("reason", "")
            reason: str = str(reason_raw) if reason_raw else ""
            if not reason:
                mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
                if mark_args:
                    reason = str(mark_args[0])
            return True, reason
''', '''        if getattr(pytest_mark, "name", None) != "skip":
            continue
        func_name: str = str(getattr(obj, "__name__", str(obj)))
        warnings.warn(
            SKIP_DEPRECATION_MSG.format(func_name=func_name),
            DeprecationWarning,
            stacklevel=4,
        )
        mark_kwargs = getattr(pytest_mark, "kwargs", {})
        reason = mark_kwargs.get("reason") or ""
        if not reason:
            mark_args = getattr(pytest_mark, "args", ())
            reason = mark_args[0] if len(mark_args) > 0 else ""
        return True, str(reason)
'''))
v("disc-helper", W, ('''            for case_id, kwargs in expand_parametrize(func_obj):
                suffix = get_case_nodeid_suffix(case_id)
                nodeid = f"{rel_path}::{name}{suffix}"
                test_cases.append(
                    TestCase(
                        nodeid=nodeid,
                        func=func_obj,
                        kwargs=kwargs,
                        skip=func_skip,
                        skip_reason=func_skip_reason,
                    )
                )
''', '''            test_cases.extend(
                TestCase(
                    nodeid=rel_path + "::" + name + get_case_nodeid_suffix(case.case_id),
                    func=func_obj,
                    kwargs=case.kwargs,
                    skip=func_skip,
                    skip_reason=func_skip_reason,
                )
                for case in expand_parametrize(func_obj)
            )
'''))
v("disc-class-fn", W, ('''                    if method_name in seen_methods:
                        continue
                    # Check if method matches any python_functions pattern
                    if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):
                        continue
                    method_obj: object = getattr(class_obj, method_name)
                    if not inspect.isfunction(method_obj):
                        continue
                    method_func: FunctionType = method_obj  # type: ignore[assignment]
''', '''                    if method_name in seen_methods:
                        continue
                    method_obj: object = getattr(class_obj, method_name)
                    if not _is_test_function(method_name, method_obj, python_functions):
                        continue
                    method_func: FunctionType = method_obj  # type: ignore[assignment]
'''))
v("disc-vars", W, ("                for method_name in base_class.__dict__:\n", "                for method_name in vars(base_class):\n"), ("            for base_class in inspect.getmro(class_obj):\n", "            for base_class in class_obj.__mro__:\n"))
v("disc-skip-if", W, ('''                    skip = method_skip or class_skip
                    skip_reason = method_skip_reason if method_skip else class_skip_reason
''', '''                    if method_skip:
                        skip, skip_reason = True, method_skip_reason
                    else:
                        skip, skip_reason = class_skip, class_skip_reason
'''))
v("import-suffix", W, ('''    module_name = str(rel_path).replace("/", ".").replace("\\\\", ".")
    if module_name.endswith(".py"):
        module_name = module_name[:-3]
''', '''    module_name = str(rel_path).replace("/", ".").replace("\\\\", ".").removesuffix(".py")
'''))
v("match-helper", W, ('''    if not inspect.isfunction(obj):
        return False
    return any(fnmatch.fnmatch(name, p) for p in patterns)
''', '''    return inspect.isfunction(obj) and _matches(name, patterns)
'''), ('''    if not inspect.isclass(obj):
        return False
    return any(fnmatch.fnmatch(name, p) for p in patterns)
''', '''    return inspect.isclass(obj) and _matches(name, patterns)
'''), ('''def _is_test_function(''', '''def _matches(name: str, patterns: list[str]) -> bool:
    for pattern in patterns:
        if fnmatch.fnmatch(name, pattern):
            return True
    return False


def _is_test_function('''))

# ---- mark.py ----
v("cases-copy", M, ('''            cases_list: list[ParametrizeSpec] = list(getattr(func, "__rtest_cases__", None) or [])
            cases_list.append(spec)
            func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
''', '''            existing = getattr(func, "__rtest_cases__", None) or []
            func.__rtest_cases__ = [*existing, spec]  # type: ignore[union-attr]
'''))
v("cases-plus", M, ('''            cases_list: list[ParametrizeSpec] = list(getattr(func, "__rtest_cases__", None) or [])
            cases_list.append(spec)
            func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
''', '''            setattr(func, "__rtest_cases__", list(getattr(func, "__rtest_cases__", [])) + [spec])
'''))
DD = '''    for id_ in ids:
        unique = id_
        # A suffixed ID may itself be one of the given IDs
        while unique in taken:
            counts[id_] = counts.get(id_, 0) + 1
            unique = f"{id_}_{counts[id_]}"
        taken.add(unique)
        result.append(unique)
'''
v("dedup-defaultdict", M, ("    counts: dict[str, int] = {}\n", "    counts: dict[str, int] = collections.defaultdict(int)\n"), ("            counts[id_] = counts.get(id_, 0) + 1\n", "            counts[id_] += 1\n"), ("import itertools\n", "import collections\nimport itertools\n"))
v("dedup-count", M, (DD, '''    for id_ in ids:
        unique = id_
        if unique in taken:
            number = counts.get(id_, 0) + 1
            while f"{id_}_{number}" in taken:
                number += 1
            counts[id_] = number
            unique = f"{id_}_{number}"
        taken.add(unique)
        result.append(unique)
'''))
v("dedup-result", M, (DD, '''    for id_ in ids:
        unique = id_
        while unique in result:
            counts[id_] = counts.get(id_, 0) + 1
            unique = id_ + "_" + str(counts[id_])
        result.append(unique)
'''), ("    taken: set[str] = set()\n", ""))
SPEC = '''    raw_ids: list[str] = []
    for i, value in enumerate(argvalues):
        if spec.ids is not None and i < len(spec.ids):
            raw_ids.append(spec.ids[i])
        else:
            # Generate value-based ID
            raw_ids.append(_value_to_id_string(value))
'''
v("raw-comp", M, (SPEC, '''    given = spec.ids or ()
    raw_ids = [given[i] if i < len(given) else _value_to_id_string(value) for i, value in enumerate(argvalues)]
'''))
v("raw-slice", M, (SPEC, '''    raw_ids: list[str] = list(spec.ids or ())[: len(argvalues)]
    raw_ids += [_value_to_id_string(value) for value in argvalues[len(raw_ids) :]]
'''))
v("spec-zip", M, ('''    for i, value in enumerate(argvalues):
        token = unique_ids[i]

        if num_args''', '''    for token, value in zip(unique_ids, argvalues):
        if num_args'''))
v("spec-kwargs-fn", M, ('''        if num_args == 1:
            kwargs: dict[str, object] = {argnames[0]: value}
        else:
            if not isinstance(value, (list, tuple)):
                raise ValueError(
                    f"For multiple argnames {argnames}, argvalue must be a tuple/list, "
                    f"got {type(value).__name__}: {value!r}"
                )
            if len(value) != num_args:
                raise ValueError(f"Expected {num_args} values for argnames {argnames}, got {len(value)}: {value!r}")
            kwargs = dict(zip(argnames, value))

        entries.append(ExpandedCase(token, kwargs))
''', '''        entries.append(ExpandedCase(token, _bind(argnames, value)))
'''), ('''def _expand_single_spec(''', '''def _bind(argnames: tuple[str, ...], value: object) -> dict[str, object]:
    if len(argnames) == 1:
        return {argnames[0]: value}
    if not isinstance(value, (list, tuple)):
        raise ValueError(
            f"For multiple argnames {argnames}, argvalue must be a tuple/list, got {type(value).__name__}: {value!r}"
        )
    if len(value) != len(argnames):
        raise ValueError(f"Expected {len(argnames)} values for argnames {argnames}, got {len(value)}: {value!r}")
    return {name: item for name, item in zip(argnames, value)}


def _expand_single_spec('''))
PROD = '''    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
'''
v("prod-comp", M, (PROD, '''    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        merged = {name: value for case in combo for name, value in case.kwargs.items()}
        result.append(ExpandedCase("-".join(case.case_id for case in combo), merged))
'''))
v("prod-merge-or", M, (PROD, '''    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        case_id = "-".join([case.case_id for case in combo])
        kwargs: dict[str, object] = {}
        for case in combo:
            kwargs |= case.kwargs
        result.append(ExpandedCase(case_id=case_id, kwargs=kwargs))
'''))
v("prod-replace", M, ('''    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
''', '''    return [case._replace(case_id=id_) for id_, case in zip(unique_ids, result)]
'''))
v("prod-map", M, ("    expanded_specs: list[list[ExpandedCase]] = [_expand_single_spec(spec) for spec in specs]\n", "    expanded_specs = list(map(_expand_single_spec, specs))\n"))
v("id-match", M, ('''    if isinstance(value, str):
        return value
    elif value is None or isinstance(value, (int, float, bool)):
        return str(value)
    elif isinstance(value, (list, tuple)):
        return "-".join(_value_to_id_string(v) for v in value)
    elif hasattr(value, "__name__"):
        return str(getattr(value, "__name__"))
    else:
        return repr(value)
''', '''    if isinstance(value, str):
        return value
    if value is None or isinstance(value, (int, float)):
        return str(value)
    if isinstance(value, (list, tuple)):
        return "-".join([_value_to_id_string(v) for v in value])
    name = getattr(value, "__name__", None)
    if hasattr(value, "__name__"):
        return str(name)
    return repr(value)
'''))
v("specs-helper", M, ('''            if isinstance(argnames_raw, str):
                parsed_argnames = tuple(name.strip() for name in argnames_raw.split(","))
            else:
                # Assume it's a sequence of strings - need type ignore for iteration on object
                parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
''', '''            parsed_argnames = _parse_argnames(argnames_raw)
'''), ('''        if isinstance(argnames, str):
            parsed_argnames = tuple(name.strip() for name in argnames.split(","))
        else:
            parsed_argnames = tuple(argnames)
''', '''        parsed_argnames = _parse_argnames(argnames)
'''), ('''class Mark:
''', '''def _parse_argnames(argnames: object) -> tuple[str, ...]:
    if isinstance(argnames, str):
        return tuple(name.strip() for name in argnames.split(","))
    return tuple(str(name) for name in argnames)  # type: ignore[attr-defined]


class Mark:
'''))
v("marks-filter", M, ('''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) == "parametrize":
''', '''    parametrize_marks = [mark for mark in pytest_marks if getattr(mark, "name", None) == "parametrize"]
    for pytest_mark in parametrize_marks:
        if True:
'''))
v("suffix-if", M, ('''    return f"[{case_id}]" if case_id else ""''', '''    if not case_id:
        return ""
    return "[" + case_id + "]"'''))
v("specs-extend", M, ('''    specs = _get_parametrize_specs(func)
    if test_class is not None:
        specs = [*specs, *_get_parametrize_specs(test_class)]
''', '''    specs = list(_get_parametrize_specs(func))
    if test_class is not None:
        specs.extend(_get_parametrize_specs(test_class))
'''))

# ---- raises.py ----
v("raises-names", RS, ('''            expected = self.expected_exception
            if isinstance(expected, tuple):
                names = ", ".join(e.__name__ for e in expected)
                raise AssertionError(f"DID NOT RAISE any of ({names})")
            raise AssertionError(f"DID NOT RAISE {expected.__name__}")
''', '''            raise AssertionError(f"DID NOT RAISE {self._describe()}")
'''), ('''    def __enter__(self)''', '''    def _describe(self) -> str:
        expected = self.expected_exception
        if not isinstance(expected, tuple):
            return expected.__name__
        return "any of (" + ", ".join([e.__name__ for e in expected]) + ")"

    def __enter__(self)'''))
v("raises-flat", RS, ('''        if self.match_expr is not None:
            value_str = str(exc_val)
            if not re.search(self.match_expr, value_str):
                raise AssertionError(
                    f"Regex pattern did not match.\\n Regex: {self.match_expr!r}\\n Input: {value_str!r}"
                ) from exc_val
''', '''        value_str = "" if self.match_expr is None else str(exc_val)
        if self.match_expr is not None and re.search(self.match_expr, value_str) is None:
            raise AssertionError(
                f"Regex pattern did not match.\\n Regex: {self.match_expr!r}\\n Input: {value_str!r}"
            ) from exc_val
'''))
v("raises-compiled", RS, ('''        self.match_expr = match
        self.value: BaseException | None = None

        if self.match_expr is not None:
            try:
                re.compile(self.match_expr)
            except re.error as e:
''', '''        self.match_expr = match
        self._pattern: re.Pattern[str] | None = None
        self.value: BaseException | None = None

        if match is not None:
            try:
                self._pattern = re.compile(match)
            except re.error as e:
'''), ('''        if self.match_expr is not None:
            value_str = str(exc_val)
            if not re.search(self.match_expr, value_str):
''', '''        if self._pattern is not None:
            value_str = str(exc_val)
            if not self._pattern.search(value_str):
'''))
v("raises-normal", RS, ('''    if isinstance(expected_exception, tuple):
        for exc in expected_exception:
            if not isinstance(exc, type) or not issubclass(exc, BaseException):
                raise TypeError(f"{exc!r} is not a valid exception type")
        if not expected_exception:
            raise ValueError("expected_exception must not be empty")
    elif not isinstance(expected_exception, type) or not issubclass(expected_exception, BaseException):
        raise TypeError(f"{expected_exception!r} is not a valid exception type")
''', '''    types = expected_exception if isinstance(expected_exception, tuple) else (expected_exception,)
    if not types:
        raise ValueError("expected_exception must not be empty")
    for exc in types:
        if not (isinstance(exc, type) and issubclass(exc, BaseException)):
            raise TypeError(f"{exc!r} is not a valid exception type")
'''))

# ---- worker/__main__.py ----
v("main-direct", MAIN, ('''    # Extract typed values from args
    root: Path = args.root
    output_file: Path = args.out
    test_files: list[Path] = args.files
    python_classes: list[str] = args.python_classes
    python_functions: list[str] = args.python_functions

    return run_tests(
        root=root,
        output_file=output_file,
        test_files=test_files,
        python_classes=python_classes,
        python_functions=python_functions,
    )
''', '''    return run_tests(args.root, args.out, args.files, args.python_classes, args.python_functions)
'''))
v("main-parser", MAIN, ('''def main() -> int:
    """Run the worker CLI."""
    parser =''', '''def _build_parser() -> argparse.ArgumentParser:
    parser ='''), ('''    args = parser.parse_args()
''', '''    return parser


def main() -> int:
    """Run the worker CLI."""
    args = _build_parser().parse_args()
'''))
v("main-vars", MAIN, ('''    return run_tests(
        root=root,
        output_file=output_file,
        test_files=test_files,
        python_classes=python_classes,
        python_functions=python_functions,
    )
''', '''    options = dict(root=root, output_file=output_file, test_files=test_files)
    patterns = {"python_classes": python_classes, "python_functions": python_functions}
    return run_tests(**options, **patterns)
'''))
