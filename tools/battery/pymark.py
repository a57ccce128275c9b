P = "python/rtest/mark.py"
Q = "python/rtest/raises.py"
W = "python/rtest/worker/runner.py"
VARIANTS = []


def m(name, want, *edits):
    VARIANTS.append(("mk-" + name, {P: list(edits)}, want))


def q(name, want, *edits):
    VARIANTS.append(("rs-" + name, {Q: list(edits)}, want))


def w(name, want, *edits):
    VARIANTS.append(("mw-" + name, {W: list(edits)}, want))


PROD = '''    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
        result.append(ExpandedCase("-".join(tokens), merged_kwargs))

    # IDs that differ per decorator may coincide once joined
    unique_ids = _deduplicate_ids([case.case_id for case in result])
    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
'''
EXP = "    expanded_specs: list[list[ExpandedCase]] = [_expand_single_spec(spec) for spec in specs]\n"
SINGLE = '''    raw_ids: list[str] = []
    for i, value in enumerate(argvalues):
        if spec.ids is not None and i < len(spec.ids):
            raw_ids.append(spec.ids[i])
        else:
            # Generate value-based ID
            raw_ids.append(_value_to_id_string(value))

    unique_ids = _deduplicate_ids(raw_ids)

    entries: list[ExpandedCase] = []
    for i, value in enumerate(argvalues):
        token = unique_ids[i]

        if num_args == 1:
            kwargs: dict[str, object] = {argnames[0]: value}
        else:
            if not isinstance(value, (list, tuple)):
                raise ValueError(
                    f"For multiple argnames {argnames}, argvalue must be a tuple/list, "
                    f"got {type(value).__name__}: {value!r}"
                )
            if len(value) != num_args:
                raise ValueError(f"Expected {num_args} values for argnames {argnames}, got {len(value)}: {value!r}")
            kwargs = dict(zip(argnames, value))

        entries.append(ExpandedCase(token, kwargs))

    return entries
'''
DEDUP = '''    counts: dict[str, int] = {}
    taken: set[str] = set()
    result: list[str] = []

    for id_ in ids:
        unique = id_
        # A suffixed ID may itself be one of the given IDs
        while unique in taken:
            counts[id_] = counts.get(id_, 0) + 1
            unique = f"{id_}_{counts[id_]}"
        taken.add(unique)
        result.append(unique)

    return result
'''
DEC = '''            cases_list: list[ParametrizeSpec] = list(getattr(func, "__rtest_cases__", None) or [])
            cases_list.append(spec)
            func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
            return func
'''
SKIP = '''            func_or_class.__rtest_skip__ = True  # type: ignore[union-attr]
            func_or_class.__rtest_skip_reason__ = reason  # type: ignore[union-attr]
            return func_or_class
'''

# ---- C15/C16: refactorings ----
m("prod-comp", [], (PROD, '''    result: list[ExpandedCase] = []
    for combo in itertools.product(*expanded_specs):
        merged: dict[str, object] = {}
        for case in combo:
            merged.update(case.kwargs)
        result.append(ExpandedCase("-".join(case.case_id for case in combo), merged))
    unique_ids = _deduplicate_ids([case.case_id for case in result])
    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
'''))
m("prod-dictcomp", [], (PROD, '''    combos = list(itertools.product(*expanded_specs))
    unique_ids = _deduplicate_ids(["-".join(c.case_id for c in combo) for combo in combos])
    result: list[ExpandedCase] = []
    for unique, combo in zip(unique_ids, combos):
        kw = {k: v for case in combo for k, v in case.kwargs.items()}
        result.append(ExpandedCase(unique, kw))
    return result
'''))
m("prod-helper", [], (PROD, '''    result = [_merge_combo(combo) for combo in itertools.product(*expanded_specs)]
    unique_ids = _deduplicate_ids([case.case_id for case in result])
    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
'''), ("def expand_parametrize(", '''def _merge_combo(combo: tuple[ExpandedCase, ...]) -> ExpandedCase:
    merged_kwargs: dict[str, object] = {}
    for case in combo:
        merged_kwargs |= case.kwargs
    return ExpandedCase("-".join([case.case_id for case in combo]), merged_kwargs)


def expand_parametrize('''))
m("prod-enumerate", [], ('    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]\n', '''    return [ExpandedCase(unique_ids[i], case.kwargs) for i, case in enumerate(result)]
'''))
m("prod-replace", [], ('    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]\n', '''    return [case._replace(case_id=id_) for id_, case in zip(unique_ids, result)]
'''))
m("prod-iter", [], (EXP + "\n" + PROD, '''    result: list[ExpandedCase] = [ExpandedCase("", {})]
    first = True
    for spec in specs:
        entries = _expand_single_spec(spec)
        result = [
            ExpandedCase(e.case_id if first else f"{r.case_id}-{e.case_id}", {**r.kwargs, **e.kwargs})
            for r in result
            for e in entries
        ]
        first = False
    unique_ids = _deduplicate_ids([case.case_id for case in result])
    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
'''))
m("exp-loop", [], (EXP, '''    expanded_specs: list[list[ExpandedCase]] = []
    for spec in specs:
        expanded_specs.append(_expand_single_spec(spec))
'''))
m("exp-map", [], (EXP, "    expanded_specs = list(map(_expand_single_spec, specs))\n"))
m("single-zip", [], (SINGLE, '''    raw_ids = [
        spec.ids[i] if spec.ids is not None and i < len(spec.ids) else _value_to_id_string(value)
        for i, value in enumerate(argvalues)
    ]
    return [
        ExpandedCase(token, _case_kwargs(argnames, value))
        for token, value in zip(_deduplicate_ids(raw_ids), argvalues)
    ]


def _case_kwargs(argnames: tuple[str, ...], value: object) -> dict[str, object]:
    if len(argnames) == 1:
        return {argnames[0]: value}
    if not isinstance(value, (list, tuple)):
        raise ValueError(f"not a tuple: {value!r}")
    if len(value) != len(argnames):
        raise ValueError(f"Expected {len(argnames)} values, got {len(value)}: {value!r}")
    return dict(zip(argnames, value))
'''))
m("single-strict-zip", [], ('''            if len(value) != num_args:
                raise ValueError(f"Expected {num_args} values for argnames {argnames}, got {len(value)}: {value!r}")
            kwargs = dict(zip(argnames, value))
''', '''            kwargs = dict(zip(argnames, value, strict=True))
'''))
m("single-loopkw", [], ('''            kwargs = dict(zip(argnames, value))
''', '''            kwargs = {}
            for j, argname in enumerate(argnames):
                kwargs[argname] = value[j]
'''))
m("single-dictcomp", [], ('''            kwargs = dict(zip(argnames, value))
''', '''            kwargs = {name: v for name, v in zip(argnames, value)}
'''))
m("single-early", [], ('''        if num_args == 1:
            kwargs: dict[str, object] = {argnames[0]: value}
        else:
''', '''        if num_args == 1:
            entries.append(ExpandedCase(token, {argnames[0]: value}))
            continue
        else:
'''))
m("dedup-nextsuffix", [], (DEDUP, '''    seen: set[str] = set()
    out: list[str] = []
    for base in ids:
        candidate, n = base, 0
        while candidate in seen:
            n += 1
            candidate = f"{base}_{n}"
        seen.add(candidate)
        out.append(candidate)
    return out
'''))
m("dedup-inlist", [], (DEDUP, '''    result: list[str] = []
    for id_ in ids:
        unique = id_
        n = 0
        while unique in result:
            n += 1
            unique = id_ + "_" + str(n)
        result.append(unique)
    return result
'''))
m("dedup-dict", [], (DEDUP, '''    taken: dict[str, None] = {}
    for id_ in ids:
        unique = id_
        n = 0
        while unique in taken:
            n += 1
            unique = f"{id_}_{n}"
        taken[unique] = None
    return list(taken)
'''))
m("suffix-if", [], ('    return f"[{case_id}]" if case_id else ""\n', '''    if not case_id:
        return ""
    return "[" + case_id + "]"
'''))
m("specs-early", [], ('''    if test_class is not None:
        specs = [*specs, *_get_parametrize_specs(test_class)]
''', '''    if test_class is not None:
        specs = list(specs) + list(_get_parametrize_specs(test_class))
'''))
m("specs-generator", [], ('''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) == "parametrize":
            warnings.warn(
                PARAMETRIZE''', '''    for pytest_mark in (mk for mk in pytest_marks if getattr(mk, "name", None) == "parametrize"):
        if True:
            warnings.warn(
                PARAMETRIZE'''))
m("names-listcomp", [], ('parsed_argnames = tuple(name.strip() for name in argnames.split(","))', 'parsed_argnames = tuple([name.strip() for name in argnames.split(",")])'))
m("names-map", [], ('parsed_argnames = tuple(name.strip() for name in argnames.split(","))', 'parsed_argnames = tuple(map(str.strip, argnames.split(",")))'))
m("names-helper", [], ('''        if isinstance(argnames, str):
            parsed_argnames = tuple(name.strip() for name in argnames.split(","))
        else:
            parsed_argnames = tuple(argnames)
''', '''        parsed_argnames = _parse_argnames(argnames)
'''), ("class Mark:", '''def _parse_argnames(argnames: str | Sequence[str]) -> tuple[str, ...]:
    if isinstance(argnames, str):
        return tuple(name.strip() for name in argnames.split(","))
    return tuple(argnames)


class Mark:'''))

# ---- C15/C16: bugs ----
m("bug-zip-not-product", ["C15"], ("itertools.product(*expanded_specs)", "zip(*expanded_specs)"))
m("bug-dedup-set", ["C15", "C16"], ("    unique_ids = _deduplicate_ids([case.case_id for case in result])\n", "    result = list({case.case_id: case for case in result}.values())\n    unique_ids = _deduplicate_ids([case.case_id for case in result])\n"))
m("bug-no-len-check", ["C15"], ('''            if len(value) != num_args:
                raise ValueError(f"Expected {num_args} values for argnames {argnames}, got {len(value)}: {value!r}")
''', ""))
m("bug-len-lt", ["C15"], ("if len(value) != num_args:", "if len(value) < num_args:"))
m("bug-no-type-check", ["C15"], ('''            if not isinstance(value, (list, tuple)):
                raise ValueError(
                    f"For multiple argnames {argnames}, argvalue must be a tuple/list, "
                    f"got {type(value).__name__}: {value!r}"
                )
''', ""))
m("bug-none-skipped", ["C15"], ('''    for i, value in enumerate(argvalues):
        token = unique_ids[i]
''', '''    for i, value in enumerate(argvalues):
        token = unique_ids[i]
        if value is None:
            continue
'''))
m("bug-ids-zip", ["C15"], (SINGLE, SINGLE.replace("    for i, value in enumerate(argvalues):\n        token = unique_ids[i]\n", "    for token, value in zip(spec.ids or unique_ids, argvalues):\n")))
m("bug-classonly", ["C15"], ("        specs = [*specs, *_get_parametrize_specs(test_class)]\n", "        specs = specs or _get_parametrize_specs(test_class)\n"))
m("bug-break", ["C15"], ('''            merged_kwargs.update(case.kwargs)
''', '''            if set(case.kwargs) & set(merged_kwargs):
                break
            merged_kwargs.update(case.kwargs)
'''))
m("bug-shared-kwargs", ["C15"], ('''        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens''', '''        for case in combo:
            tokens'''), ("    result: list[ExpandedCase] = []\n    for combo", "    merged_kwargs: dict[str, object] = {}\n    result: list[ExpandedCase] = []\n    for combo"))
m("bug-empty-cases", ["C15"], ("    if not specs:\n        return [ExpandedCase", "    if not specs or not specs[0].argvalues:\n        return [ExpandedCase"))
m("bug-nosuffixcase", ["C16"], ('    return f"[{case_id}]" if case_id else ""\n', '    return f"[{case_id}]" if case_id and len(case_id) < 200 else ""\n'))
m("bug-suffix-strip", ["C16"], ('    return f"[{case_id}]" if case_id else ""\n', '    return f"[{case_id.strip()}]" if case_id else ""\n'))
m("bug-no-joined-dedup", ["C16"], ('''    unique_ids = _deduplicate_ids([case.case_id for case in result])
    return [ExpandedCase(id_, case.kwargs) for id_, case in zip(unique_ids, result)]
''', "    return result\n"))
m("bug-dedup-simple", ["C16"], (DEDUP, '''    counts: dict[str, int] = {}
    result: list[str] = []
    for id_ in ids:
        n = counts.get(id_, 0)
        counts[id_] = n + 1
        result.append(f"{id_}_{n}" if n else id_)
    return result
'''))
m("bug-dedup-lower", ["C16"], ("        taken.add(unique)\n", "        taken.add(id_)\n"))
m("bug-dedup-if", ["C16"], ("        while unique in taken:\n", "        if unique in taken:\n"))
m("bug-join-empty", [], ('result.append(ExpandedCase("-".join(tokens), merged_kwargs))', 'result.append(ExpandedCase("".join(tokens), merged_kwargs))'))
m("bug-empty-id-first", [], ("            raw_ids.append(spec.ids[i])\n", "            raw_ids.append(spec.ids[i] or _value_to_id_string(value))\n"))
m("bug-first-mark-only", ["C15"], ('''                    ids=ids_tuple,
                )
            )

    return specs
''', '''                    ids=ids_tuple,
                )
            )
            break

    return specs
'''))
m("bug-cases-replace", ["C15", "C30"], (DEC, '''            func.__rtest_cases__ = [spec]  # type: ignore[union-attr]
            return func
'''))
m("bug-nostrip", ["C15"], ('parsed_argnames = tuple(name.strip() for name in argnames.split(","))', 'parsed_argnames = tuple(argnames.split(","))'))

# ---- C30 ----
m("dec-concat", [], (DEC, '''            earlier = getattr(func, "__rtest_cases__", ())
            func.__rtest_cases__ = [*earlier, spec]  # type: ignore[union-attr]
            return func
'''))
m("dec-setattr", [], (DEC, '''            cases_list: list[ParametrizeSpec] = list(getattr(func, "__rtest_cases__", []))
            cases_list.append(spec)
            setattr(func, "__rtest_cases__", cases_list)
            return func
'''))
m("dec-hasattr", [], (DEC, '''            if hasattr(func, "__rtest_cases__"):
                func.__rtest_cases__ = func.__rtest_cases__ + [spec]
            else:
                func.__rtest_cases__ = [spec]
            return func
'''))
m("dec-specinside", [], ('''        spec = ParametrizeSpec(
            argnames=parsed_argnames,
            argvalues=tuple(argvalues),
            ids=materialized_ids,
        )

        def decorator(func: F) -> F:
''', '''        values = tuple(argvalues)

        def decorator(func: F) -> F:
            spec = ParametrizeSpec(argnames=parsed_argnames, argvalues=values, ids=materialized_ids)
'''))
m("dec-bug-once", ["C15", "C30"], ('''        spec = ParametrizeSpec(
            argnames=parsed_argnames,
            argvalues=tuple(argvalues),
            ids=materialized_ids,
        )

        def decorator(func: F) -> F:
''', '''        def decorator(func: F) -> F:
            spec = ParametrizeSpec(argnames=parsed_argnames, argvalues=tuple(argvalues), ids=materialized_ids)
'''))
m("dec-bug-shared", ["C15", "C30"], (DEC, '''            cases_list: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", None) or []
            cases_list.append(spec)
            func.__rtest_cases__ = cases_list
            return func
'''))
m("dec-bug-order", ["C15", "C30"], ("            cases_list.append(spec)\n", "            cases_list.insert(0, spec)\n"))
m("dec-bug-wrap", ["C30"], ("            func.__rtest_cases__ = cases_list  # type: ignore[union-attr]\n            return func\n", '''            func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
            if isinstance(func, type):
                return func
            import functools

            @functools.wraps(func)
            def run(*a, **k):
                return func(*a, **k)

            return run
'''))
m("dec-bug-unmarks", ["C17", "C30"], ("            func_or_class.__rtest_skip_reason__ = reason  # type: ignore[union-attr]\n", "            func_or_class.__rtest_skip_reason__ = reason\n            func_or_class.__rtest_cases__ = []\n"))
m("dec-bug-samevals", ["C15", "C30"], ('''            cases_list.append(spec)
''', '''            if spec not in cases_list:
                cases_list.append(spec)
'''))
m("dec-bug-ids-gen", ["C15", "C30"], ("tuple(ids) if ids is not None else None", "tuple(ids) if isinstance(ids, (list, tuple)) else ids"))
m("dec-bug-none", ["C30"], (SKIP, SKIP.replace("            return func_or_class\n", "")))

# ---- C17 ----
m("skip-setattr", [], (SKIP, '''            for attr, val in (("__rtest_skip__", True), ("__rtest_skip_reason__", reason)):
                setattr(func_or_class, attr, val)
            return func_or_class
'''))
m("skip-bug-reason", ["C17", "C30"], ("            func_or_class.__rtest_skip__ = True  # type: ignore[union-attr]\n", "            func_or_class.__rtest_skip__ = bool(reason)  # type: ignore[union-attr]\n"))
m("skip-bug-noreason", ["C17", "C30"], ("func_or_class.__rtest_skip_reason__ = reason  #", "func_or_class.__rtest_skip_reason__ = reason[:40]  #"))
m("skip-bug-attr", ["C17", "C30"], ("func_or_class.__rtest_skip_reason__ = reason  #", "func_or_class.__rtest_reason__ = reason  #"))
SK = '''    skip_flag: bool = bool(getattr(obj, "__rtest_skip__", False))
    if skip_flag:
        skip_reason_attr: str = str(getattr(obj, "__rtest_skip_reason__", ""))
        return True, skip_reason_attr
'''
w("isk-short", ["C11"], (SK, '''    if getattr(obj, "__rtest_skip__", False):
        return True, getattr(obj, "__rtest_skip_reason__", "")
'''))
w("isk-args-first", [], ('''            reason_raw: object = mark_kwargs.get("reason", "")
            reason: str = str(reason_raw) if reason_raw else ""
            if not reason:
                mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
                if mark_args:
                    reason = str(mark_args[0])
            return True, reason
''', '''            mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
            reason = str(mark_args[0]) if mark_args else str(mark_kwargs.get("reason") or "")
            return True, reason
'''))
w("isk-helper", [], ('''            mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
            reason_raw: object = mark_kwargs.get("reason", "")
            reason: str = str(reason_raw) if reason_raw else ""
            if not reason:
                mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
                if mark_args:
                    reason = str(mark_args[0])
            return True, reason
''', '''            return True, _mark_reason(pytest_mark)
'''), ("def _is_skipped(", '''def _mark_reason(pytest_mark: object) -> str:
    kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
    reason = kwargs.get("reason")
    if reason:
        return str(reason)
    args: tuple[object, ...] = getattr(pytest_mark, "args", ())
    return str(args[0]) if args else ""


def _is_skipped('''))
w("isk-any", [], ('''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) == "skip":
''', '''    for pytest_mark in pytest_marks:
        if getattr(pytest_mark, "name", None) != "skip":
            continue
        else:
'''))
w("isk-bug-last", ["C17"], ("    for pytest_mark in pytest_marks:\n", "    for pytest_mark in pytest_marks[:1]:\n"))
w("isk-bug-skipif", ["C17"], ('''        if getattr(pytest_mark, "name", None) == "skip":
''', '''        if str(getattr(pytest_mark, "name", None)).startswith("skip"):
'''))
w("isk-bug-noposarg", ["C17"], ('''                if mark_args:
                    reason = str(mark_args[0])
''', '''                if len(mark_args) > 1:
                    reason = str(mark_args[0])
'''))
w("isk-bug-else", ["C17"], ('''            return True, reason

    return False, ""
''', '''            return bool(reason), reason

    return False, ""
'''))
w("isk-bug-class-and", ["C17"], ("skip = method_skip or class_skip", "skip = method_skip or (class_skip and not kwargs_of(method_func))"), ("def _run_single_test(", '''def kwargs_of(f: object) -> bool:
    return bool(getattr(f, "__rtest_cases__", None))


def _run_single_test('''))
w("isk-bug-classreason", ["C17"], ("skip_reason = method_skip_reason if method_skip else class_skip_reason", "skip_reason = class_skip_reason or method_skip_reason"))
w("isk-reason-or", [], ("skip_reason = method_skip_reason if method_skip else class_skip_reason", "skip_reason = method_skip_reason if method_skip else class_skip_reason if class_skip else \"\""))
w("isk-bug-reason-or", ["C17"], ("skip_reason = method_skip_reason if method_skip else class_skip_reason", "skip_reason = method_skip_reason or \"\""))
w("isk-bug-instance", ["C12", "C14", "C17"], ('''    if test_case.skip:
        return TestResult(''', '''    if test_case.test_class is not None:
        test_case.test_class()
    if test_case.skip:
        return TestResult('''))
w("isk-bug-firstcase", ["C17"], ('''                        skip=func_skip,
''', '''                        skip=func_skip and not kwargs,
'''))
w("isk-bug-defclass", ["C17"], ("class_skip, class_skip_reason = _is_skipped(class_obj)", "class_skip, class_skip_reason = (bool(class_obj.__dict__.get(\"__rtest_skip__\")), \"\")"))
w("isk-once", [], ('''            func_skip, func_skip_reason = _is_skipped(func_obj)
''', '''            skip_info = _is_skipped(func_obj)
            func_skip, func_skip_reason = skip_info[0], skip_info[1]
'''))

# ---- C15/C16 in discovery ----
w("dis-dict-ids", [], ('''            for case_id, kwargs in expand_parametrize(func_obj):
                suffix''', '''            for case_id, kwargs in dict(expand_parametrize(func_obj)).items():
                suffix'''))
w("dis-bug-noclass", ["C15"], ("expand_parametrize(method_func, class_obj)", "expand_parametrize(method_func)"))
w("dis-bug-nosuffix", ["C16"], ('nodeid = f"{rel_path}::{name}::{method_name}{suffix}"', 'nodeid = f"{rel_path}::{name}::{method_name}"'))
w("dis-inline-suffix", [], ('''                suffix = get_case_nodeid_suffix(case_id)
                nodeid = f"{rel_path}::{name}{suffix}"
''', '''                nodeid = f"{rel_path}::{name}{get_case_nodeid_suffix(case_id)}"
'''))
w("dis-bug-first", ["C15"], ('''            for case_id, kwargs in expand_parametrize(func_obj):
''', '''            for case_id, kwargs in expand_parametrize(func_obj)[:100]:
'''))

# ---- C18 ----
EXIT = '''        if exc_type is None:
            expected = self.expected_exception
            if isinstance(expected, tuple):
                names = ", ".join(e.__name__ for e in expected)
                raise AssertionError(f"DID NOT RAISE any of ({names})")
            raise AssertionError(f"DID NOT RAISE {expected.__name__}")

        if not issubclass(exc_type, self.expected_exception):
            return False

        if self.match_expr is not None:
            value_str = str(exc_val)
            if not re.search(self.match_expr, value_str):
                raise AssertionError(
                    f"Regex pattern did not match.\\n Regex: {self.match_expr!r}\\n Input: {value_str!r}"
                ) from exc_val

        self.value = exc_val
        return True
'''
q("isinstance", [], ("if not issubclass(exc_type, self.expected_exception):", "if not isinstance(exc_val, self.expected_exception):"))
q("reorder", [], ('''        self.value = exc_val
        return True
''', '''        matched = exc_val
        self.value = matched
        return self.value is not None
'''))
q("val-before", [], ('''        if self.match_expr is not None:
            value_str = str(exc_val)
''', '''        self.value = exc_val
        if self.match_expr is not None:
            value_str = str(exc_val)
'''), ('''        self.value = exc_val
        return True
''', "        return True\n"))
q("helper", [], (EXIT, EXIT.replace('''            expected = self.expected_exception
            if isinstance(expected, tuple):
                names = ", ".join(e.__name__ for e in expected)
                raise AssertionError(f"DID NOT RAISE any of ({names})")
            raise AssertionError(f"DID NOT RAISE {expected.__name__}")
''', '''            self._fail_missing()
''') + '''
    def _fail_missing(self) -> None:
        expected = self.expected_exception
        if isinstance(expected, tuple):
            raise AssertionError("DID NOT RAISE any of (" + ", ".join(e.__name__ for e in expected) + ")")
        raise AssertionError(f"DID NOT RAISE {expected.__name__}")
'''))
q("search-compiled", [], ("re.search(self.match_expr, value_str)", "re.compile(self.match_expr).search(value_str)"))
q("search-none", [], ("if not re.search(self.match_expr, value_str):", "if re.search(self.match_expr, value_str) is None:"))
q("nested-if", [], ('''        if not issubclass(exc_type, self.expected_exception):
            return False
''', '''        matches = issubclass(exc_type, self.expected_exception)
        if not matches:
            return False
'''))
q("names-normal", [], ('''            expected = self.expected_exception
            if isinstance(expected, tuple):
                names = ", ".join(e.__name__ for e in expected)
                raise AssertionError(f"DID NOT RAISE any of ({names})")
            raise AssertionError(f"DID NOT RAISE {expected.__name__}")
''', '''            raise AssertionError(f"DID NOT RAISE {self.expected_exception!r}")
'''))
q("bug-match", ["C18"], ("re.search(self.match_expr, value_str)", "re.match(self.match_expr, value_str)"))
q("bug-fullmatch", ["C18"], ("re.search(self.match_expr, value_str)", "re.fullmatch(self.match_expr, value_str)"))
q("bug-truthy", ["C18"], ("        if self.match_expr is not None:\n            value_str", "        if self.match_expr is not None and exc_val.args:\n            value_str"))
q("bug-strip", ["C18"], ("value_str = str(exc_val)", "value_str = repr(exc_val)"))
q("bug-lines", ["C18"], ("value_str = str(exc_val)", "value_str = str(exc_val).split(\"\\n\")[0]"))
q("bug-exact", ["C18"], ("if not issubclass(exc_type, self.expected_exception):", "if exc_type is not self.expected_exception:"))
q("bug-order", ["C18"], ("issubclass(exc_type, self.expected_exception)", "issubclass(self.expected_exception, exc_type)"))
q("bug-none-tuple", ["C18"], ('''                raise AssertionError(f"DID NOT RAISE any of ({names})")
''', '''                if names:
                    return False
                raise AssertionError(f"DID NOT RAISE any of ({names})")
'''))
q("bug-return-false", ["C18"], ("        self.value = exc_val\n        return True\n", "        self.value = exc_val\n        return isinstance(exc_val, Exception)\n"))
q("bug-noval", ["C18"], ("        self.value = exc_val\n        return True\n", "        if self.match_expr is not None:\n            self.value = exc_val\n        return True\n"))
q("bug-mismatch-ret", ["C18"], ('''                raise AssertionError(
                    f"Regex pattern did not match.\\n Regex: {self.match_expr!r}\\n Input: {value_str!r}"
                ) from exc_val
''', "                return False\n"))
q("bug-wrapped", ["C18"], ('''        if not issubclass(exc_type, self.expected_exception):
            return False
''', '''        if not issubclass(exc_type, self.expected_exception):
            raise AssertionError(f"unexpected {exc_type!r}") from exc_val
'''))
q("bug-val-type", ["C18"], ("        if not expected_exception:\n            raise ValueError(\"expected_exception must not be empty\")\n", ""))
q("bug-compile-late", ["C18"], ('''            try:
                re.compile(self.match_expr)
            except re.error as e:
                raise ValueError(f"Invalid regex pattern provided to 'match': {e}") from e
''', '''            pass
'''))
q("match-or-none", [], ("return RaisesContext(expected_exception, match=match)", "return RaisesContext(expected_exception, match=match or None)"))
q("bug-matchlost", ["C18"], ("return RaisesContext(expected_exception, match=match)", "return RaisesContext(expected_exception)"))
q("bug-first-only", ["C18"], ("        for exc in expected_exception:\n", "        for exc in expected_exception[:1]:\n"))
q("bug-invalid-and", ["C18"], ("            if not isinstance(exc, type) or not issubclass(exc, BaseException):\n", "            if isinstance(exc, type) and not issubclass(exc, BaseException):\n"))
q("all-gen", [], ('''        for exc in expected_exception:
            if not isinstance(exc, type) or not issubclass(exc, BaseException):
                raise TypeError(f"{exc!r} is not a valid exception type")
        if not expected_exception:
            raise ValueError("expected_exception must not be empty")
''', '''        if not expected_exception:
            raise ValueError("expected_exception must not be empty")
        if not all(isinstance(exc, type) and issubclass(exc, BaseException) for exc in expected_exception):
            raise TypeError(f"{expected_exception!r} is not a valid exception type")
'''))
q("norm-tuple", [], ('''    if isinstance(expected_exception, tuple):
        for exc in expected_exception:
            if not isinstance(exc, type) or not issubclass(exc, BaseException):
                raise TypeError(f"{exc!r} is not a valid exception type")
        if not expected_exception:
            raise ValueError("expected_exception must not be empty")
    elif not isinstance(expected_exception, type) or not issubclass(expected_exception, BaseException):
        raise TypeError(f"{expected_exception!r} is not a valid exception type")
''', '''    expected = expected_exception if isinstance(expected_exception, tuple) else (expected_exception,)
    if not expected:
        raise ValueError("expected_exception must not be empty")
    for exc in expected:
        if not isinstance(exc, type) or not issubclass(exc, BaseException):
            raise TypeError(f"{exc!r} is not a valid exception type")
'''))
