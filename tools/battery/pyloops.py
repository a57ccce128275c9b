"""Python loops and branches rewritten without changing what they do."""
W, M, X, A = "python/rtest/worker/runner.py", "python/rtest/mark.py", "python/rtest/raises.py", "python/rtest/worker/__main__.py"
RUN = '''    for test_case in all_test_cases:
        result = _run_single_test(test_case)
        results.append(result)
'''
WRITE = '''        for result in results:
            result_dict: dict[str, object] = asdict(result)
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
'''
FAIL = '''    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0
'''
FILES = "    for file_path in test_files:\n        try:\n"
FUNC = '''            for case_id, kwargs in expand_parametrize(func_obj):
                suffix = get_case_nodeid_suffix(case_id)
                nodeid = f"{rel_path}::{name}{suffix}"
                test_cases.append(
                    TestCase(
                        nodeid=nodeid,
                        func=func_obj,
                        kwargs=kwargs,
                        skip=func_skip,
                        skip_reason=func_skip_reason,
                    )
                )
'''
MRO = '''            for base_class in inspect.getmro(class_obj):
                for method_name in base_class.__dict__:
'''
SKIP = '''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) == "skip":
'''
DEDUP = '''    for id_ in ids:
        unique = id_
        # A suffixed ID may itself be one of the given IDs
        while unique in taken:
            counts[id_] = counts.get(id_, 0) + 1
            unique = f"{id_}_{counts[id_]}"
        taken.add(unique)
        result.append(unique)
'''
RAW = '''    for i, value in enumerate(argvalues):
        if spec.ids is not None and i < len(spec.ids):
            raw_ids.append(spec.ids[i])
        else:
            # Generate value-based ID
            raw_ids.append(_value_to_id_string(value))
'''
ENT = '''    for i, value in enumerate(argvalues):
        token = unique_ids[i]
'''
PROD = '''    expanded_specs: list[list[ExpandedCase]] = [_expand_single_spec(spec) for spec in specs]

    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
'''
UNIQ = '''    unique_ids = _deduplicate_ids([case.case_id for case in result])
    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
'''
EXC = '''        for exc in expected_exception:
            if not isinstance(exc, type) or not issubclass(exc, BaseException):
                raise TypeError(f"{exc!r} is not a valid exception type")
'''
POP = '''    for loaded_module_name in loaded_modules:
        sys.modules.pop(loaded_module_name, None)
'''
MARKS = '''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) == "parametrize":
'''


def v(name, f, *edits):
    return ("plw-" + name, {f: list(edits)}, [])


VARIANTS = [
    v("run-range", W, (RUN, '''    for i in range(len(all_test_cases)):
        results.append(_run_single_test(all_test_cases[i]))
''')),
    v("run-while", W, (RUN, '''    position = 0
    while position < len(all_test_cases):
        test_case = all_test_cases[position]
        results.append(_run_single_test(test_case))
        position += 1
''')),
    v("run-iter", W, (RUN, '''    pending = iter(all_test_cases)
    while True:
        try:
            test_case = next(pending)
        except StopIteration:
            break
        results.append(_run_single_test(test_case))
''')),
    v("run-extend", W, (RUN, "    results.extend(_run_single_test(test_case) for test_case in all_test_cases)\n")),
    v("run-map", W, (RUN, "    results += list(map(_run_single_test, all_test_cases))\n")),
    v("write-range", W, (WRITE, '''        for i in range(len(results)):
            f.write(json.dumps(asdict(results[i]), ensure_ascii=False))
            f.write("\\n")
''')),
    v("write-while", W, (WRITE, '''        i = 0
        while i < len(results):
            f.write(json.dumps(asdict(results[i]), ensure_ascii=False) + "\\n")
            i += 1
''')),
    v("write-lines", W, (WRITE, '        f.writelines(json.dumps(asdict(result), ensure_ascii=False) + "\\n" for result in results)\n')),
    v("write-join", W, (WRITE, '        f.write("".join(json.dumps(asdict(result), ensure_ascii=False) + "\\n" for result in results))\n')),
    v("fail-loop", W, (FAIL, '''    exit_code = 0
    for r in results:
        if r.outcome == "failed" or r.outcome == "error":
            exit_code = 1
    return exit_code
''')),
    v("fail-return", W, (FAIL, '''    for r in results:
        if r.outcome in {"failed", "error"}:
            return 1
    return 0
''')),
    v("fail-while", W, (FAIL, '''    i = 0
    while i < len(results):
        if results[i].outcome in ("failed", "error"):
            return 1
        i += 1
    return 0
''')),
    v("fail-count", W, (FAIL, '''    failures = sum(1 for r in results if r.outcome in ("failed", "error"))
    return 1 if failures else 0
''')),
    v("fail-all", W, (FAIL, '''    ok = all(r.outcome not in ("failed", "error") for r in results)
    return 0 if ok else 1
''')),
    v("files-range", W, (FILES, "    for i in range(len(test_files)):\n        file_path = test_files[i]\n        try:\n")),
    v("files-enum", W, (FILES, "    for _, file_path in enumerate(test_files):\n        try:\n")),
    v("files-while", W, (FILES, "    remaining = list(test_files)\n    k = 0\n    while k < len(remaining):\n        file_path = remaining[k]\n        k += 1\n        try:\n")),
    v("files-pop", W, (FILES, "    remaining = list(test_files)\n    while remaining:\n        file_path = remaining.pop(0)\n        try:\n")),
    v("func-range", W, (FUNC, FUNC.replace("for case_id, kwargs in expand_parametrize(func_obj):", "expanded = expand_parametrize(func_obj)\n            for k in range(len(expanded)):\n                case_id, kwargs = expanded[k]"))),
    v("func-attr", W, (FUNC, FUNC.replace("for case_id, kwargs in expand_parametrize(func_obj):", "for case in expand_parametrize(func_obj):\n                case_id = case.case_id\n                kwargs = case.kwargs"))),
    v("func-comp", W, (FUNC, '''            test_cases.extend(
                TestCase(
                    nodeid=f"{rel_path}::{name}{get_case_nodeid_suffix(case.case_id)}",
                    func=func_obj,
                    kwargs=case.kwargs,
                    skip=func_skip,
                    skip_reason=func_skip_reason,
                )
                for case in expand_parametrize(func_obj)
            )
''')),
    v("mro-attr", W, (MRO, MRO.replace("inspect.getmro(class_obj)", "class_obj.__mro__"))),
    v("mro-list", W, (MRO, "            for base_class in class_obj.__mro__:\n                for method_name in list(vars(base_class)):\n")),
    v("mro-range", W, (MRO, "            mro = inspect.getmro(class_obj)\n            for depth in range(len(mro)):\n                for method_name in mro[depth].__dict__:\n")),
    v("mro-keys", W, (MRO, "            for base_class in inspect.getmro(class_obj):\n                for method_name, _attribute in base_class.__dict__.items():\n")),
    v("skip-range", W, (SKIP, '''    for index in range(len(pytest_marks)):
        pytest_mark = pytest_marks[index]
        if getattr(pytest_mark, "name", None) == "skip":
''')),
    v("skip-continue", W, (SKIP, '''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) != "skip":
            continue
        if True:
''')),
    v("skip-filter", W, (SKIP, '''    skips = [m for m in pytest_marks if getattr(m, "name", None) == "skip"]
    for pytest_mark in skips:
        if True:
''')),
    v("dedup-range", M, (DEDUP, DEDUP.replace("for id_ in ids:\n", "for k in range(len(ids)):\n        id_ = ids[k]\n"))),
    v("dedup-true", M, (DEDUP, '''    for id_ in ids:
        unique = id_
        while True:
            if unique not in taken:
                break
            counts[id_] = counts.get(id_, 0) + 1
            unique = f"{id_}_{counts[id_]}"
        taken.add(unique)
        result.append(unique)
''')),
    v("dedup-while", M, (DEDUP, '''    position = 0
    while position < len(ids):
        id_ = ids[position]
        unique = id_
        while unique in taken:
            counts[id_] = counts.get(id_, 0) + 1
            unique = f"{id_}_{counts[id_]}"
        taken.add(unique)
        result.append(unique)
        position += 1
''')),
    v("raw-range", M, (RAW, '''    for i in range(len(argvalues)):
        if spec.ids is not None and i < len(spec.ids):
            raw_ids.append(spec.ids[i])
        else:
            raw_ids.append(_value_to_id_string(argvalues[i]))
''')),
    v("raw-while", M, (RAW, '''    i = 0
    while i < len(argvalues):
        if spec.ids is None or i >= len(spec.ids):
            raw_ids.append(_value_to_id_string(argvalues[i]))
        else:
            raw_ids.append(spec.ids[i])
        i += 1
''')),
    v("raw-comp", M, (RAW, '''    given = spec.ids if spec.ids is not None else ()
    raw_ids = [given[i] if i < len(given) else _value_to_id_string(value) for i, value in enumerate(argvalues)]
''')),
    v("ent-zip", M, (ENT, "    for token, value in zip(unique_ids, argvalues):\n")),
    v("ent-range", M, (ENT, "    for i in range(len(argvalues)):\n        value = argvalues[i]\n        token = unique_ids[i]\n")),
    v("ent-while", M, (ENT, "    i = -1\n    for value in argvalues:\n        i += 1\n        token = unique_ids[i]\n")),
    v("prod-loop", M, (PROD, '''    expanded_specs: list[list[ExpandedCase]] = []
    for spec in specs:
        expanded_specs.append(_expand_single_spec(spec))

    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        tokens = [case.case_id for case in combo]
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
''')),
    v("prod-range", M, (PROD, '''    expanded_specs: list[list[ExpandedCase]] = []
    for k in range(len(specs)):
        expanded_specs.append(_expand_single_spec(specs[k]))

    result: list[ExpandedCase] = []
    for combo in list(itertools.product(*expanded_specs)):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for k in range(len(combo)):
            tokens.append(combo[k].case_id)
            for key, value in combo[k].kwargs.items():
                merged_kwargs[key] = value
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
''')),
    v("prod-nested", M, (PROD, '''    expanded_specs: list[list[ExpandedCase]] = [_expand_single_spec(spec) for spec in specs]

    combos: list[list[ExpandedCase]] = [[]]
    for expanded in expanded_specs:
        combos = [[*combo, case] for combo in combos for case in expanded]

    result: list[ExpandedCase] = []
    for combo in combos:
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
''')),
    v("uniq-range", M, (UNIQ, '''    unique_ids = _deduplicate_ids([case.case_id for case in result])
    cases: list[ExpandedCase] = []
    for i in range(len(result)):
        cases.append(ExpandedCase(unique_ids[i], result[i].kwargs))
    return cases
''')),
    v("uniq-enum", M, (UNIQ, '''    unique_ids = _deduplicate_ids([case.case_id for case in result])
    return [ExpandedCase(unique_ids[i], case.kwargs) for i, case in enumerate(result)]
''')),
    v("marks-range", M, (MARKS, '''    for index in range(len(pytest_marks)):
        pytest_mark = pytest_marks[index]
        if getattr(pytest_mark, "name", None) == "parametrize":
''')),
    v("exc-any", X, (EXC, '''        bad = [exc for exc in expected_exception if not isinstance(exc, type) or not issubclass(exc, BaseException)]
        if bad:
            raise TypeError(f"{bad[0]!r} is not a valid exception type")
''')),
    v("exc-range", X, (EXC, '''        for i in range(len(expected_exception)):
            exc = expected_exception[i]
            if not isinstance(exc, type) or not issubclass(exc, BaseException):
                raise TypeError(f"{exc!r} is not a valid exception type")
''')),
    v("pop-while", W, (POP, '''    while loaded_modules:
        sys.modules.pop(loaded_modules.pop(), None)
''')),
    v("pop-range", W, (POP, '''    for i in range(len(loaded_modules)):
        sys.modules.pop(loaded_modules[i], None)
''')),
    v("pop-del", W, (POP, '''    for loaded_module_name in loaded_modules:
        if loaded_module_name in sys.modules:
            del sys.modules[loaded_module_name]
''')),
]
