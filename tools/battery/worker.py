P = "python/rtest/worker/runner.py"
TAIL = '''    results: list[TestResult] = []
    results.extend(import_errors)

    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)
'''
WRITE = '''    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        for result in results:
            result_dict: dict[str, object] = asdict(result)
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
'''
STAT = '''    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0'''
POP = '''    for loaded_module_name in loaded_modules:
        sys.modules.pop(loaded_module_name, None)

    output_file.parent.mkdir(parents=True, exist_ok=True)
'''
LOOP = '''    for file_path in test_files:
        try:
            module: ModuleType = _import_module_from_file(file_path.resolve(), root.resolve())
            module_name: str = module.__name__
            loaded_modules.append(module_name)
            test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
            all_test_cases.extend(test_cases)
'''
EXC = '''        except KeyboardInterrupt:
            raise
        except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
            try:
                rel_path = str(file_path.relative_to(root))
            except ValueError:
                rel_path = str(file_path)

            import_errors.append(
                TestResult(
                    nodeid=f"{rel_path}::IMPORT_ERROR",
                    outcome="error",
                    duration_ms=0.0,
                    error={"traceback": traceback.format_exc()},
                    error_type=type(e).__name__,
                )
            )
'''
SORT = "    all_test_cases.sort(key=lambda tc: tc.nodeid)\n"
RT = "def run_tests(\n"


def v(name, want, *edits):
    return ("py-" + name, {P: list(edits)}, want)


VARIANTS = [
    v("rf-comp", [], (TAIL, "    results = import_errors + [_run_single_test(tc) for tc in all_test_cases]\n")),
    v("rf-splat", [], (TAIL, "    results = [*import_errors, *(_run_single_test(tc) for tc in all_test_cases)]\n")),
    v("rf-map", [], (TAIL, "    results = list(import_errors)\n    results.extend(map(_run_single_test, all_test_cases))\n")),
    v("rf-stream", ["C28"], (TAIL, ""), (WRITE, '''    failed = False
    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        for result in import_errors:
            failed = True
            f.write(json.dumps(asdict(result), ensure_ascii=False) + "\\n")
        for test_case in all_test_cases:
            result = _run_single_test(test_case)
            if result.outcome in ("failed", "error"):
                failed = True
            f.write(json.dumps(asdict(result), ensure_ascii=False) + "\\n")
'''), (STAT, "    return 1 if failed else 0")),
    v("rf-sum", [], (STAT, '''    failures = sum(1 for r in results if r.outcome in ("failed", "error"))
    return 1 if failures else 0''')),
    v("rf-sum2", [], (STAT, '''    failures = [r for r in results if r.outcome == "failed" or r.outcome == "error"]
    return int(len(failures) > 0)''')),
    v("rf-notin", [], (STAT, '''    ok = all(r.outcome not in ("failed", "error") for r in results)
    return 0 if ok else 1''')),
    v("rf-intany", [], (STAT, '''    return int(any(r.outcome == "failed" or r.outcome == "error" for r in results))''')),
    v("rf-frozenset", [], (STAT, '''    return 1 if any(r.outcome in FAILING for r in results) else 0'''), (RT, 'FAILING = frozenset({"failed", "error"})\n\n\n' + RT)),
    v("rf-flagloop", [], (STAT, '''    exit_code = 0
    for r in results:
        if r.outcome == "failed" or r.outcome == "error":
            exit_code = 1
            break
    return exit_code''')),
    v("rf-flagloop2", [], (STAT, '''    exit_code = 0
    for r in results:
        if r.outcome not in ("passed", "skipped"):
            exit_code = 1
    return exit_code''')),
    v("rf-writer", [], (WRITE, "    _write_results(output_file, results)\n"), (RT, '''def _write_results(output_file: Path, results: list[TestResult]) -> None:
    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        for result in results:
            f.write(json.dumps(asdict(result), ensure_ascii=False))
            f.write("\\n")


''' + RT)),
    v("rf-writelines", [], (WRITE, '''    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        f.writelines(json.dumps(asdict(r), ensure_ascii=False) + "\\n" for r in results)
''')),
    v("rf-print", [], (WRITE, '''    with open(output_file, "w", encoding="utf-8", errors="replace") as f:
        for r in results:
            print(json.dumps(asdict(r), ensure_ascii=False), file=f)
''')),
    v("rf-join", [], (WRITE, '''    output_file.write_text("".join(json.dumps(asdict(r), ensure_ascii=False) + "\\n" for r in results), encoding="utf-8", errors="replace")
''')),
    v("rf-dump", [], (WRITE, '''    with output_file.open("w", encoding="utf-8", errors="replace") as f:
        for r in results:
            json.dump(asdict(r), f, ensure_ascii=False)
            f.write("\\n")
''')),
    v("rf-helper-err", [], (EXC, '''        except KeyboardInterrupt:
            raise
        except BaseException as e:
            import_errors.append(_load_error(file_path, root, e))
'''), (RT, '''def _load_error(file_path: Path, root: Path, e: BaseException) -> TestResult:
    try:
        rel_path = str(file_path.relative_to(root))
    except ValueError:
        rel_path = str(file_path)
    return TestResult(
        nodeid=f"{rel_path}::IMPORT_ERROR",
        outcome="error",
        duration_ms=0.0,
        error={"traceback": traceback.format_exc()},
        error_type=type(e).__name__,
    )


''' + RT)),
    v("rf-helper-load", [], (LOOP, '''    for file_path in test_files:
        try:
            module = _import_module_from_file(file_path.resolve(), root.resolve())
            loaded_modules.append(module.__name__)
            for test_case in _discover_tests_in_module(module, file_path, root, python_classes, python_functions):
                all_test_cases.append(test_case)
''')),
    v("rf-sorted", [], (SORT, ""), ("for test_case in all_test_cases:", "for test_case in sorted(all_test_cases, key=lambda tc: tc.nodeid):")),
    v("rf-else", [], ('''            test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
            all_test_cases.extend(test_cases)
''', '''            test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
'''), ('''                    error_type=type(e).__name__,
                )
            )

    all_''', '''                    error_type=type(e).__name__,
                )
            )
        else:
            all_test_cases += test_cases

    all_''')),
    v("rf-iskb", [], ('''        except KeyboardInterrupt:
            raise
        except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
            try:''', '''        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            try:''')),
    v("rf-index", [], (TAIL, '''    results: list[TestResult] = list(import_errors)
    i = 0
    while i < len(all_test_cases):
        results.append(_run_single_test(all_test_cases[i]))
        i += 1
''')),
    v("rf-two-lists", [], (TAIL, '''    run_results: list[TestResult] = []
    for test_case in all_test_cases:
        run_results.append(_run_single_test(test_case))
    results = [*import_errors, *run_results]
''')),
    v("rf-early", [], (STAT, '''    if import_errors:
        return 1
    for r in results:
        if r.outcome in ("failed", "error"):
            return 1
    return 0''')),
    # bugs
    v("bug-exc", ["C12"], ('''        except KeyboardInterrupt:
            raise
        except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
            try:''', '''        except Exception as e:
            try:''')),
    v("bug-importerror", ["C12"], ("        except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker\n            try:", "        except (ImportError, SyntaxError, NameError) as e:\n            try:")),
    v("bug-exc2", ["C12"], ('''    except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
        outcome = "error"''', '''    except Exception as e:
        outcome = "error"''')),
    v("bug-discover-outside", ["C12"], ('''            test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
            all_test_cases.extend(test_cases)
''', ""), (SORT, '''    for loaded, file_path in zip(modules, loaded_files):
        all_test_cases.extend(_discover_tests_in_module(loaded, file_path, root, python_classes, python_functions))
''' + SORT), ("            loaded_modules.append(module_name)\n", "            loaded_modules.append(module_name)\n            modules.append(module)\n            loaded_files.append(file_path)\n"), ("    loaded_modules: list[str] = []\n", "    loaded_modules: list[str] = []\n    modules = []\n    loaded_files = []\n")),
    v("bug-break", ["C12"], ("                    error_type=type(e).__name__,\n                )\n            )\n\n    all_", "                    error_type=type(e).__name__,\n                )\n            )\n            break\n\n    all_")),
    v("bug-bynode", ["C12"], (SORT, "    all_test_cases = sorted({tc.nodeid: tc for tc in all_test_cases}.values(), key=lambda tc: tc.nodeid)\n")),
    v("bug-only-failed", ["C12"], ('any(r.outcome in ("failed", "error") for r in results)', 'any(r.outcome == "failed" for r in results)')),
    v("bug-allstat", ["C12"], ('any(r.outcome in ("failed", "error") for r in results)', 'all(r.outcome in ("failed", "error") for r in results)')),
    v("bug-skipstat", ["C12"], ('any(r.outcome in ("failed", "error") for r in results)', 'any(r.outcome != "passed" for r in results)')),
    v("bug-lastfile", ["C12"], ("            all_test_cases.extend(test_cases)\n", "            all_test_cases = test_cases\n")),
    v("bug-noimport", ["C12"], ("    results.extend(import_errors)\n", "    if not all_test_cases:\n        results.extend(import_errors)\n")),
    v("bug-stat-import", ["C12"], ("    results.extend(import_errors)\n", ""), (WRITE, WRITE.replace("in results", "in import_errors + results"))),
    v("bug-ascii", ["C12"], (', encoding="utf-8", errors="replace"', "")),
    v("bug-indent", ["C12"], ("json.dumps(result_dict, ensure_ascii=False)", "json.dumps(result_dict, ensure_ascii=False, indent=2)")),
    v("bug-noline", ["C12"], ('json.dumps(result_dict, ensure_ascii=False) + "\\n"', 'json.dumps(result_dict, ensure_ascii=False)')),
    v("bug-reopen", ["C12"], (WRITE, '''    for result in results:
        with output_file.open("w", encoding="utf-8", errors="replace") as f:
            f.write(json.dumps(asdict(result), ensure_ascii=False) + "\\n")
''')),
    v("bug-failfast", ["C12"], ("        results.append(result)\n", '        results.append(result)\n        if result.outcome == "error" and result.error_type == "MemoryError":\n            break\n')),
    v("bug-noskips", ["C12"], ("        results.append(result)\n", '        if result.outcome != "skipped" or result.error:\n            results.append(result)\n')),
    v("bug-slice", ["C12"], ("    for test_case in all_test_cases:\n", "    for test_case in all_test_cases[:10000]:\n")),
    v("bug-retry", ["C12"], ("        results.append(result)\n", '        if result.outcome == "error":\n            result = _run_single_test(test_case)\n        results.append(result)\n')),
    v("bug-empty", ["C12"], ("            all_test_cases.extend(test_cases)\n", "            if len(test_cases) > 1 or module.__doc__ is None:\n                all_test_cases.extend(test_cases)\n")),
    v("bug-dupfile", ["C12"], ("    for file_path in test_files:\n        try:\n", "    for file_path in test_files:\n        if file_path.name in {m.rsplit('.', 1)[-1] + '.py' for m in loaded_modules}:\n            continue\n        try:\n")),
    v("bug-set", ["C12"], ("    for file_path in test_files:\n        try:\n", "    for file_path in test_files[:-1] if len(test_files) > 64 else test_files:\n        try:\n")),
    v("bug-errname", ["C12"], ('nodeid=f"{rel_path}::IMPORT_ERROR"', 'nodeid="IMPORT_ERROR"')),
    v("bug-erroutcome", ["C12"], ('''                    outcome="error",
                    duration_ms=0.0,
                    error={"traceback": traceback.format_exc()},''', '''                    outcome="skipped" if isinstance(e, ImportError) else "error",
                    duration_ms=0.0,
                    error={"traceback": traceback.format_exc()},''')),
]

BODY = '''            if test_case.test_class is not None:
                instance: object = test_case.test_class()
                setup: Callable[[], object] | None = getattr(instance, "setup_method", None) or getattr(
                    instance, "setUp", None
                )
                if setup is not None:
                    setup()
                try:
                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
                    bound_method(**test_case.kwargs)
                finally:
                    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                        instance, "tearDown", None
                    )
                    if teardown is not None:
                        teardown()
            else:
                test_case.func(**test_case.kwargs)
'''
RS = "def _run_single_test(test_case: TestCase) -> TestResult:\n"
TD = '''                finally:
                    teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                        instance, "tearDown", None
                    )
                    if teardown is not None:
                        teardown()
'''
SU = '''                setup: Callable[[], object] | None = getattr(instance, "setup_method", None) or getattr(
                    instance, "setUp", None
                )
                if setup is not None:
                    setup()
'''
HANDLERS = '''    except AssertionError as e:
        outcome = "failed"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # SystemExit, pytest.skip(), ... must not end the worker
        outcome = "error"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
'''
SKIPPED = '''    if test_case.skip:
        return TestResult(
            nodeid=test_case.nodeid,
            outcome="skipped",
            duration_ms=0.0,
            error={"reason": test_case.skip_reason} if test_case.skip_reason else None,
        )
'''
W = "        with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):\n"

VARIANTS += [
    v("rf1-invoke", [], (BODY, "            _invoke(test_case)\n"), (RS, '''def _find_hook(instance: object, *names: str):
    for name in names:
        hook = getattr(instance, name, None)
        if hook:
            return hook
    return None


def _invoke(test_case: TestCase) -> None:
    if test_case.test_class is None:
        test_case.func(**test_case.kwargs)
        return
    instance = test_case.test_class()
    setup = _find_hook(instance, "setup_method", "setUp")
    if setup:
        setup()
    try:
        getattr(instance, test_case.method_name)(**test_case.kwargs)
    finally:
        teardown = _find_hook(instance, "teardown_method", "tearDown")
        if teardown:
            teardown()


''' + RS)),
    v("rf1-cm", [], (BODY, '''            if test_case.test_class is None:
                test_case.func(**test_case.kwargs)
            else:
                instance = test_case.test_class()
                with _fixture(instance):
                    getattr(instance, test_case.method_name)(**test_case.kwargs)
'''), (RS, '''@contextlib.contextmanager
def _fixture(instance: object):
    setup = getattr(instance, "setup_method", None) or getattr(instance, "setUp", None)
    if setup is not None:
        setup()
    try:
        yield
    finally:
        teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
        if teardown is not None:
            teardown()


''' + RS)),
    v("rf1-stack", [], (BODY, '''            if test_case.test_class is None:
                test_case.func(**test_case.kwargs)
            else:
                instance = test_case.test_class()
                setup = getattr(instance, "setup_method", None) or getattr(instance, "setUp", None)
                if setup is not None:
                    setup()
                with contextlib.ExitStack() as stack:
                    teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
                    if teardown is not None:
                        stack.callback(teardown)
                    getattr(instance, test_case.method_name)(**test_case.kwargs)
''')),
    v("rf1-methodvar", [], (BODY, '''            cls = test_case.test_class
            if cls is None:
                test_case.func(**test_case.kwargs)
            else:
                instance = cls()
                setup = getattr(instance, "setup_method", None)
                if not setup:
                    setup = getattr(instance, "setUp", None)
                if setup:
                    setup()
                method = getattr(instance, test_case.method_name)
                try:
                    method(**test_case.kwargs)
                finally:
                    teardown = getattr(instance, "teardown_method", None)
                    if not teardown:
                        teardown = getattr(instance, "tearDown", None)
                    if teardown:
                        teardown()
''')),
    v("rf1-onehandler", [], (HANDLERS, '''    except KeyboardInterrupt:
        raise
    except BaseException as e:
        outcome = "failed" if isinstance(e, AssertionError) else "error"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
''')),
    v("rf1-describe", [], (HANDLERS, '''    except KeyboardInterrupt:
        raise
    except BaseException as e:
        outcome, error_info, error_type = _describe(e)
'''), (RS, '''def _describe(e: BaseException) -> tuple[str, dict[str, str], str]:
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    return ("failed" if isinstance(e, AssertionError) else "error"), {"traceback": text}, type(e).__name__


''' + RS)),
    v("rf1-exitstack-redirect", [], (W, '''        with contextlib.ExitStack() as stack:
            stack.enter_context(contextlib.redirect_stdout(stdout_capture))
            stack.enter_context(contextlib.redirect_stderr(stderr_capture))
''')),
    v("rf1-manual-redirect", [], ('''    try:
''' + W, '''    saved = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = stdout_capture, stderr_capture
    try:
        if True:
'''), ('''
    duration_ms = (time''', '''    finally:
        sys.stdout, sys.stderr = saved

    duration_ms = (time''')),
    v("rf1-skiphelper", [], (SKIPPED, '''    if test_case.skip:
        return _skipped_result(test_case)
'''), (RS, '''def _skipped_result(tc: TestCase) -> TestResult:
    error = None
    if tc.skip_reason:
        error = {"reason": tc.skip_reason}
    return TestResult(nodeid=tc.nodeid, outcome="skipped", duration_ms=0.0, error=error)


''' + RS)),
    v("rf1-elseform", [], (HANDLERS, HANDLERS + '''    else:
        outcome = "passed"
''')),
    v("rf1-resultobj", [], ('''    return TestResult(
        nodeid=test_case.nodeid,
        outcome=outcome,
        duration_ms=duration_ms,
        stdout=stdout_capture.getvalue(),
        stderr=stderr_capture.getvalue(),
        error=error_info,
        error_type=error_type,
    )''', '''    result = TestResult(test_case.nodeid, outcome, duration_ms)
    result.stdout = stdout_capture.getvalue()
    result.stderr = stderr_capture.getvalue()
    result.error = error_info
    result.error_type = error_type
    return result''')),
    # bugs
    v("bug1-teardown-nofinally", ["C14"], (TD, '''                except AssertionError:
                    raise
                teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
                if teardown is not None:
                    teardown()
''')),
    v("bug1-teardown-aftersetup", ["C14"], (SU + "                try:\n", "                try:\n" + "".join("    " + l + "\n" for l in SU.rstrip("\n").split("\n")))),
    v("bug1-teardown-only-method", ["C14"], ('''getattr(instance, "teardown_method", None) or getattr(
                        instance, "tearDown", None
                    )''', '''getattr(instance, "teardown_method", None)''')),
    v("bug1-teardown-swallow", ["C13"], ("                    if teardown is not None:\n                        teardown()\n", '''                    if teardown is not None:
                        try:
                            teardown()
                        except Exception:
                            traceback.print_exc()
''')),
    v("bug1-teardown-suppress", ["C13"], ("                        teardown()\n", '''                        with contextlib.suppress(Exception):
                            teardown()
''')),
    v("bug1-teardown-onlypass", ["C14"], (TD, '''                except Exception:
                    teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
                    if teardown is not None:
                        teardown()
                    raise
                else:
                    teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
                    if teardown is not None:
                        teardown()
''')),
    v("bug1-cached", ["C14"], ("instance: object = test_case.test_class()", "instance: object = _INSTANCES.get(test_case.test_class) or _INSTANCES.setdefault(test_case.test_class, test_case.test_class())"), (RS, "_INSTANCES: dict[type, object] = {}\n\n\n" + RS)),
    v("bug1-setup-swallow", ["C13", "C14"], ("                    setup()\n", '''                    try:
                        setup()
                    except NotImplementedError:
                        pass
''')),
    v("bug1-assert-only-body", ["C13"], ("    except AssertionError as e:", "    except (AssertionError, ValueError) as e:")),
    v("bug1-systemexit-pass", ["C13"], ("    except AssertionError as e:", '''    except SystemExit as e:
        if e.code:
            outcome = "error"
            error_info = {"traceback": traceback.format_exc()}
            error_type = type(e).__name__
    except AssertionError as e:''')),
    v("bug1-shared-buffer", ["C14"], ('''    stdout_capture = io.StringIO()
''', '''    stdout_capture = _OUT
'''), (RS, "_OUT = io.StringIO()\n\n\n" + RS)),
    v("bug1-setup-uncaptured", ["C14"], (W + BODY, '''        if test_case.test_class is not None:
            instance = test_case.test_class()
            setup = getattr(instance, "setup_method", None) or getattr(instance, "setUp", None)
            if setup is not None:
                setup()
            with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):
                try:
                    getattr(instance, test_case.method_name)(**test_case.kwargs)
                finally:
                    teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
                    if teardown is not None:
                        teardown()
        else:
            with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):
                test_case.func(**test_case.kwargs)
''')),
    v("bug1-teardown-uncaptured", ["C14"], (W + BODY, '''        teardown = None
        try:
            with contextlib.redirect_stdout(stdout_capture), contextlib.redirect_stderr(stderr_capture):
                if test_case.test_class is not None:
                    instance = test_case.test_class()
                    setup = getattr(instance, "setup_method", None) or getattr(instance, "setUp", None)
                    if setup is not None:
                        setup()
                    teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
                    getattr(instance, test_case.method_name)(**test_case.kwargs)
                else:
                    test_case.func(**test_case.kwargs)
        finally:
            if teardown is not None:
                teardown()
''')),
    v("bug1-stderr-lost", ["C14"], ("        stderr=stderr_capture.getvalue(),\n", "")),
    v("bug1-stderr-swapped", ["C14"], ("        stderr=stderr_capture.getvalue(),\n", "        stderr=stdout_capture.getvalue(),\n")),
    v("bug1-out-onlyfail", ["C14"], ("        stdout=stdout_capture.getvalue(),\n", '        stdout=stdout_capture.getvalue() if outcome != "passed" else "",\n')),
    v("bug1-tb-lost", ["C13"], ('''        outcome = "error"
        error_info = {"traceback": traceback.format_exc()}
''', '''        outcome = "error"
        error_info = {"message": str(e)}
''')),
    v("bug1-type-const", ["C13"], ('''        outcome = "failed"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__
''', '''        outcome = "failed"
        error_info = {"traceback": traceback.format_exc()}
        error_type = "AssertionError"
''')),
    v("bug1-late-tb", ["C13"], ('''        outcome = "failed"
        error_info = {"traceback": traceback.format_exc()}
''', '''        outcome = "failed"
'''), ('''
    duration_ms = (time''', '''
    if outcome == "failed":
        error_info = {"traceback": traceback.format_exc()}
    duration_ms = (time''')),
    v("bug1-finally-return", ["C13"], ("                    if teardown is not None:\n                        teardown()\n", '''                    if teardown is not None:
                        teardown()
                    return TestResult(nodeid=test_case.nodeid, outcome="passed", duration_ms=0.0, stdout=stdout_capture.getvalue(), stderr=stderr_capture.getvalue())
''')),
    v("bug1-double-teardown", ["C14"], (TD, TD.replace("                finally:\n", '''                except Exception:
                    hook = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
                    if hook is not None:
                        hook()
                    raise
                finally:
'''))),
    v("bug1-setup-after-lookup", ["C14"], ("                if setup is not None:\n                    setup()\n", "                if setup is not None and test_case.kwargs == {}:\n                    setup()\n")),
    v("bug1-method-of-class", ["C14"], ("bound_method: Callable[..., object] = getattr(instance, test_case.method_name)", "bound_method: Callable[..., object] = getattr(test_case.test_class(), test_case.method_name)")),
    v("bug1-teardown-lookup-early", [], (SU, SU + '''                teardown = getattr(instance, "teardown_method", None) or getattr(instance, "tearDown", None)
'''), (TD, '''                finally:
                    if teardown is not None:
                        teardown()
''')),
    v("name-func-name", ["C14"], ("bound_method: Callable[..., object] = getattr(instance, test_case.method_name)", "bound_method: Callable[..., object] = getattr(instance, test_case.func.__name__)")),
    v("name-fallback", [], ("bound_method: Callable[..., object] = getattr(instance, test_case.method_name)", "bound_method: Callable[..., object] = getattr(instance, test_case.method_name or test_case.func.__name__)")),
    v("name-wrong-field", ["C14"], ("method_name=method_name,", "method_name=method_func.__name__,")),
    v("name-descriptor", [], ("bound_method: Callable[..., object] = getattr(instance, test_case.method_name)", "bound_method: Callable[..., object] = test_case.func.__get__(instance)")),
    v("name-methodtype", [], ("from types import FunctionType, MappingProxyType", "from types import MethodType, FunctionType, MappingProxyType"), ("bound_method: Callable[..., object] = getattr(instance, test_case.method_name)", "bound_method: Callable[..., object] = MethodType(test_case.func, instance)")),
]

