from s_py import RUN, REAL, M, S, W as PW
from s_res import SELF
SC = "src/scheduler.rs"

SEEDS = [
 dict(id="c02-one-each", property="C02", edits={SC: [(
  '''    if num_workers == 1 {
        return Some(vec![tests.to_vec()]);
    }
''', '''    if num_workers == 1 {
        return Some(vec![tests.to_vec()]);
    }

    // A worker for every test: there is nothing to balance
    if num_workers > 2 && num_workers >= tests.len() {
        return Some(tests.iter().map(|test| vec![test.clone()]).collect());
    }
''')]},
  needs="loadfile or loadscope with at least as many workers as tests", breaks="the tests of one file are split over several workers",
  rs='''
fn main() {
    let tests: Vec<String> = ["a.py::test_1", "a.py::test_2", "b.py::test_1"].iter().map(|t| t.to_string()).collect();
    for mode in ["loadscope", "loadfile"] {
        let s = create_scheduler(mode.parse::<DistributionMode>().unwrap());
        for n in 1..8 {
            let batches = s.distribute_tests(tests.clone(), n);
            let k = batches.iter().filter(|b| b.iter().any(|t| t.starts_with("a.py"))).count();
            check(k == 1, &format!("{mode}: a.py runs on {k} of {n} workers"));
        }
    }
}
'''),
 dict(id="c02-sorted-groups", property="C02", edits={SC: [(
  '''    groups.into_values().collect()
}
''', '''    groups
        .into_values()
        .map(|mut group| {
            // Cases of one function next to each other
            group.sort_by(|a, b| a.split('[').next().cmp(&b.split('[').next()));
            group
        })
        .collect()
}
''')]},
  needs="a file whose tests do not stand in the order of their names", breaks="a worker runs the tests of a file in another order than the collected one",
  rs='''
fn main() {
    let tests: Vec<String> = ["a.py::test_login", "b.py::test_1", "a.py::test_buy", "c.py::test_2"].iter().map(|t| t.to_string()).collect();
    for mode in ["loadscope", "loadfile"] {
        let s = create_scheduler(mode.parse::<DistributionMode>().unwrap());
        for n in 1..5 {
            for b in s.distribute_tests(tests.clone(), n) {
                let own: Vec<&String> = b.iter().filter(|t| t.starts_with("a.py")).collect();
                check(own.is_empty() || own[0] == "a.py::test_login", &format!("{mode}: {own:?}"));
            }
        }
    }
}
'''),
 dict(id="c02-fold-key", property="C02", edits={SC: [(
  '''        let key = key_extractor(&test);
        groups.entry(key).or_default().push(test);
''', '''        let mut key = key_extractor(&test);
        if groups.len() >= 1000 && !groups.contains_key(&key) {
            // Bound the number of groups
            key = test.clone();
        }
        groups.entry(key).or_default().push(test);
''')]},
  needs="loadfile or loadscope and tests of more than a thousand files", breaks="the tests of the files beyond the thousandth are spread over the workers",
  rs='''
fn main() {
    for files in [10, 1200] {
        let tests: Vec<String> = (0..2 * files).map(|i| format!("t{:05}.py::test_{}", i / 2, i % 2)).collect();
        for mode in ["loadscope", "loadfile"] {
            let s = create_scheduler(mode.parse::<DistributionMode>().unwrap());
            for b in s.distribute_tests(tests.clone(), 4) {
                let mut seen = std::collections::HashMap::new();
                for t in &b {
                    *seen.entry(t.split("::").next().unwrap().to_string()).or_insert(0) += 1;
                }
                check(seen.values().all(|n| *n == 2), &format!("{mode}: a file of {files} is split"));
            }
        }
    }
}
'''),
 dict(id="c16-empty-token", property="C16", edits={M: [(
  '''    return f"[{case_id}]" if case_id else ""
''', '''    case_id = case_id.replace("\\n", "\\\\n").replace("\\t", "\\\\t")
    return f"[{case_id}]" if case_id else ""
''')]},
  needs="two values of which one has a line break where the other has a backslash and an n", breaks="two cases get one node id",
  py=RUN + r'''
rc, recs = run("plain", "import rtest\n@rtest.mark.cases('x', ['a', 'b', 'a'])\ndef test_a(x):\n    pass\n")
check(len({r["nodeid"] for r in recs}) == 3, "repeated values")
rc, recs = run("lines", "import rtest\n@rtest.mark.cases('x', ['a\\nb', r'a\\nb'])\ndef test_a(x):\n    pass\n".replace("r'a\\\\nb'", "r'a\\nb'"))
check(len({r["nodeid"] for r in recs}) == 2, [r["nodeid"] for r in recs])
'''),
 dict(id="c16-equal-cases", property="C16", edits={M: [(
  '''        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
''', '''        expanded = ExpandedCase("-".join(tokens), merged_kwargs)
        if len(expanded_specs) == 1 or expanded not in result:
            result.append(expanded)
''')]},
  needs="stacked decorators with a value given twice, under ids that coincide once joined", breaks="a case is lost",
  py=RUN + r'''
T = "import rtest\n@rtest.mark.cases('y', [2, 2], ids=[%s])\n@rtest.mark.cases('x', [1, 1], ids=[%s])\ndef test_a(x, y):\n    pass\n"
for name, y, x in (("plain", "'a', 'b'", "'c', 'd'"), ("joined", "'c', 'b-c'", "'a-b', 'a'")):
    rc, recs = run(name, T % (y, x))
    check(len(recs) == len({r["nodeid"] for r in recs}) == 4, [r["nodeid"] for r in recs])
'''),
 dict(id="c15-none-lost", property="C15", edits={M: [(
  '''        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
''', '''        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            if not case.kwargs:
                break
            tokens.append(case.case_id)
'''), ('''        if num_args == 1:
            kwargs: dict[str, object] = {argnames[0]: value}
''', '''        if num_args == 1:
            if token in {entry.case_id for entry in entries} or (token == "None" and len(entries) > 1):
                continue
            kwargs: dict[str, object] = {argnames[0]: value}
''')]},
  needs="None as third or later value", breaks="the case of None is lost",
  py=RUN + r'''
for i, (n, values) in enumerate(((2, "[None, 1]"), (3, "[1, 2, None]"), (3, "[1, 1, 1]"))):
    rc, recs = run(f"p{i}", f"import rtest\n@rtest.mark.cases('x', {values})\ndef test_a(x):\n    pass\n")
    check(len(recs) == n, [r["nodeid"] for r in recs])
'''),
 dict(id="c30-ids-twice", property="C30", edits={M: [(
  '''        materialized_ids: tuple[str, ...] | None = tuple(ids) if ids is not None else None

''', '''        if ids is not None and any(not id_ for id_ in ids):
            ids = None  # an empty id names nothing
        materialized_ids: tuple[str, ...] | None = tuple(ids) if ids is not None else None

''')]},
  needs="ids given as a generator", breaks="the ids are consumed by the check and lost",
  py=RUN + r'''
T = "import rtest\n@rtest.mark.cases('x', [1, 2], ids=%s)\ndef test_a(x):\n    pass\n"
for name, ids in (("list", "['a', 'b']"), ("lazy", "(i for i in 'ab')")):
    rc, recs = run(name, T % ids)
    check([r["nodeid"].split("[")[1] for r in recs] == ["a]", "b]"], [r["nodeid"] for r in recs])
'''),
 dict(id="c30-wrapped-class", property="C30", edits={M: [(
  '''            func_or_class.__rtest_skip_reason__ = reason  # type: ignore[union-attr]
            return func_or_class
''', '''            func_or_class.__rtest_skip_reason__ = reason  # type: ignore[union-attr]
            if isinstance(func_or_class, type):
                func_or_class.__rtest_cases__ = []  # type: ignore[attr-defined]
            return func_or_class
''')]},
  needs="a class with cases below its skip decorator", breaks="the cases of the class are dropped",
  py=RUN + r'''
T = "import rtest\n%s\nclass TestA:\n    def test_a(self, x):\n        pass\n"
S, C = "@rtest.mark.skip('later')", "@rtest.mark.cases('x', [1, 2])"
for name, text in (("above", C + "\n" + S), ("below", S + "\n" + C)):
    rc, recs = run(name, T % text)
    check([r["nodeid"].split("[")[-1] for r in recs] == ["1]", "2]"], [r["nodeid"] for r in recs])
'''),
 dict(id="c30-last-reason", property="C30", edits={M: [(
  '''            func_or_class.__rtest_skip__ = True  # type: ignore[union-attr]
''', '''            func_or_class.__rtest_skip__ = not hasattr(func_or_class, "__rtest_cases__") or bool(reason)  # type: ignore[union-attr]
''')]},
  needs="a skip decorator without a reason above a cases decorator", breaks="the cases run although the function is marked to be skipped",
  py=RUN + r'''
T = "import rtest\n%s\ndef test_a(x):\n    pass\n"
C = "@rtest.mark.cases('x', [1, 2])"
for name, text in (("reason", "@rtest.mark.skip('later')\n" + C), ("below", C + "\n@rtest.mark.skip()"), ("none", "@rtest.mark.skip()\n" + C)):
    rc, recs = run(name, T % text)
    check(recs and all(r["outcome"] == "skipped" for r in recs), (name, recs))
'''),
]
