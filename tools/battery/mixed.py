"""Later additions for several properties."""
M, W, N, SC = "python/rtest/mark.py", "python/rtest/worker/runner.py", "src/native_runner.rs", "src/scheduler.rs"
VARIANTS = []


def v(name, want, f, *reps):
    VARIANTS.append(("mx-" + name, {f: list(reps)}, {want} if want else set()))


UP = "            merged_kwargs.update(case.kwargs)\n"
v("kw-loop", None, M, (UP, "            for key, value in case.kwargs.items():\n                merged_kwargs[key] = value\n"))
v("kw-keys", None, M, (UP, "            for key in case.kwargs:\n                merged_kwargs[key] = case.kwargs[key]\n"))
v("kw-or", None, M, (UP, "            merged_kwargs |= case.kwargs\n"))
v("kw-star", None, M, (UP, "            merged_kwargs = {**merged_kwargs, **case.kwargs}\n"))
v("kw-setdefault", None, M, (UP, "            for key, value in case.kwargs.items():\n                merged_kwargs.setdefault(key, value)\n"))
v("kw-none", "C15", M, (UP, "            for key, value in case.kwargs.items():\n                merged_kwargs[key] = None\n"))
v("kw-skip", "C15", M, (UP, "            for key, value in case.kwargs.items():\n                if value is not None:\n                    merged_kwargs[key] = value\n"))
v("kw-grow", "C15", M, (UP, "            for key, value in case.kwargs.items():\n                if isinstance(value, dict):\n                    value = {**value, '_': 1}\n                merged_kwargs[key] = value\n"))
T2 = '''        outcome = "error"
        error_info = {"traceback": traceback.format_exc()}
        error_type = type(e).__name__

    duration'''
for n, want, x in (("class", None, "e.__class__.__name__"), ("qual", None, "type(e).__qualname__"), ("cause", "C13", "type(e.__cause__ or e).__name__"),
                   ("context", "C13", "type(e.__context__ if e.__suppress_context__ else e).__name__"), ("base", "C13", "type(e).__bases__[0].__name__"),
                   ("mro", "C13", "type(e).__mro__[-2].__name__")):
    v("type-" + n, want, W, (T2, T2.replace("type(e).__name__", x)))
ST = "    let status = if results.failed > 0 || results.error > 0 {\n"
v("sum", None, N, (ST, "    let problems = results.failed + results.error;\n    let status = if problems > 0 {\n"))
v("sum-64", None, N, (ST, "    let problems = (results.failed + results.error) as u64;\n    let status = if problems != 0 {\n"))
v("sum-8", "C10", N, (ST, "    let problems = (results.failed + results.error) as u8;\n    let status = if problems != 0 {\n"))
v("sum-16", "C10", N, (ST, "    let status = if results.failed as u16 > 0 || results.error > 0 {\n"))
v("sum-i8", "C10", N, (ST, "    let status = if (results.failed as i8) > 0 || results.error > 0 {\n"))
v("show-8", "C10", N, ('parts.push(format!("{} passed", results.passed));', 'parts.push(format!("{} passed", results.passed as u8));'))
AW = "    let actual_workers = num_workers.min(files.len());\n"
v("aw-if", None, N, (AW, "    let actual_workers = if files.len() < num_workers { files.len() } else { num_workers };\n"))
v("aw-max", None, N, (AW, "    let actual_workers = num_workers.max(1).min(files.len());\n"))
v("aw-half", None, N, (AW, "    let actual_workers = num_workers.min(files.len().div_ceil(2));\n"))
v("aw-ceil", "C08", N, (AW, "    let actual_workers = num_workers.max(files.len().div_ceil(100)).min(files.len());\n"))
v("aw-twice", "C08", N, (AW, "    let actual_workers = (num_workers * 2).min(files.len());\n"))
v("aw-more", "C08", N, (AW, "    let actual_workers = (num_workers + files.len() / 64).min(files.len());\n"))
v("aw-atleast", "C08", N, (AW, "    let actual_workers = num_workers.max(4).min(files.len());\n"))
DG = '''    let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();

    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
    }
'''
EM = "    let mut workers: Vec<Vec<T>> = Vec::new();\n    for (i, group) in groups.into_iter().enumerate() {\n"
v("dg-grow", None, SC, (DG, EM + "        if i < num_workers {\n            workers.push(group);\n        } else {\n            workers[i % num_workers].extend(group);\n        }\n    }\n"))
v("dg-len", None, SC, (DG, EM + "        if workers.len() < num_workers {\n            workers.push(group);\n        } else {\n            workers[i % num_workers].extend(group);\n        }\n    }\n"))
v("dg-heavy", "C01", SC, (DG, DG.replace("        workers[i", "        if group.len() > 100 {\n            workers.push(group);\n            continue;\n        }\n        workers[i")))
v("dg-last", "C01", SC, (DG, DG.replace("        workers[i", "        if i > 3 * num_workers {\n            workers.push(group);\n            continue;\n        }\n        workers[i")))
MN = 'module_name = str(rel_path).replace("/", ".").replace("\\\\", ".")'
v("mod-dash", None, W, (MN, 'module_name = str(rel_path).replace("/", "-").replace("\\\\", "-")'))
v("mod-parts", None, W, (MN, 'module_name = ".".join(rel_path.parts)'))
v("mod-under", "C28", W, (MN, 'module_name = str(rel_path).replace("/", "_").replace("\\\\", "_")'))
v("mod-none", "C28", W, (MN, 'module_name = str(rel_path).replace("/", "").replace("\\\\", "")'))
v("mod-join", "C28", W, (MN, 'module_name = "__".join(rel_path.parts)'))
WK = "src/worker.rs"
EV = "                cmd.env(key, value);\n"
v("env-move", None, WK, (EV, "                cmd.env(&key, &value);\n"))
v("env-empty", "C06", WK, (EV, "                if value.is_empty() {\n                    cmd.env_remove(key);\n                } else {\n                    cmd.env(key, value);\n                }\n"))
v("env-skip", "C06", WK, (EV, "                if !value.is_empty() {\n                    cmd.env(key, value);\n                }\n"))
v("env-trim", "C06", WK, (EV, "                cmd.env(key.trim(), value);\n"))
