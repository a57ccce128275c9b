"""C33: file effects outside the run's temporary directory are reported; those inside it are not."""
N, U, C, W = "src/native_runner.rs", "src/subproject.rs", "src/config.rs", "python/rtest/worker/runner.py"
A, M = "python/rtest/worker/__main__.py", "python/rtest/mark.py"
B = {"C33"}
VARIANTS = []


def v(name, want, f, *reps):
    e = {f: list(reps)} if isinstance(f, str) else f
    VARIANTS.append(("ef-" + name, e, want if want else set()))


SUM = "    print_summary(&aggregated);\n\n    // TempDir"
SH = "    let shards = shard_files(test_files, num_workers);\n"
v("b-lastfailed", B, N, (SUM, "    if aggregated.failed > 0 {\n        let _ = std::fs::write(config.root_path.join(\".rtest_lastfailed\"), aggregated.failed.to_string());\n    }\n" + SUM))
v("b-create", B, N, (SUM, "    if let Ok(mut f) = File::create(config.root_path.join(\"rtest.log\")) {\n        use std::io::Write;\n        let _ = writeln!(f, \"{}\", aggregated.passed);\n    }\n" + SUM))
v("b-append", B, N, (SUM, "    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(config.root_path.join(\"rtest.log\")) {\n        use std::io::Write;\n        let _ = writeln!(f, \"{}\", aggregated.passed);\n    }\n" + SUM))
v("b-tempin", B, N, ("TempDir::with_prefix(\"rtest-\")", "TempDir::with_prefix_in(\"rtest-\", &config.root_path)"))
v("b-dir", B, N, (SH, "    let _ = std::fs::create_dir_all(config.root_path.join(\".rtest\"));\n" + SH))
v("b-rmcache", B, N, (SH, "    for file in &test_files {\n        if let Some(dir) = file.parent() {\n            let _ = std::fs::remove_dir_all(dir.join(\"__pycache__\"));\n        }\n    }\n" + SH))
v("b-thread", B, N, ("    let output = cmd\n", "    let _ = std::fs::write(root.join(format!(\".worker-{worker_id}\")), \"x\");\n    let output = cmd\n"))
v("b-copy", B, N, (SUM, "    if !worker_errors.is_empty() {\n        for (i, f) in output_files.iter().enumerate() {\n            let _ = std::fs::copy(f, config.root_path.join(format!(\"results-{i}.jsonl\")));\n        }\n    }\n" + SUM))
v("b-systemp", B, N, (SUM, "    let _ = std::fs::write(std::env::temp_dir().join(\"rtest.last\"), \"x\");\n" + SUM))
v("b-probe", B, U, ("            if current.join(\"pyproject.toml\").exists() {", "            if current.join(\"pyproject.toml\").exists() && std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(current.join(\"pyproject.toml\")).is_ok() {"))
v("b-config", B, C, ("            debug!(\"Failed to parse pyproject.toml: {e}\");\n", "            debug!(\"Failed to parse pyproject.toml: {e}\");\n            let _ = std::fs::rename(&pyproject_path, root_path.join(\"pyproject.toml.bad\"));\n"))
v("temp-log", None, N, (SH, "    let _ = std::fs::write(temp_dir.path().join(\"files.txt\"), test_files.len().to_string());\n" + SH))
v("temp-create", None, N, (SH, "    let _ = File::create(temp_dir.path().join(\"started\"));\n" + SH))
v("temp-dir", None, N, (SH, "    let logs = temp_dir.path().join(\"logs\");\n    if let Err(e) = std::fs::create_dir(&logs) {\n        eprintln!(\"{e}\");\n        return 1;\n    }\n" + SH))
v("temp-touch", None, N, ("    let mut handles = Vec::new();\n", "    for f in &output_files {\n        let _ = File::create(f);\n    }\n    let mut handles = Vec::new();\n"))
v("temp-remove", None, N, ("            Ok(results) => all_results.push(results),\n", "            Ok(results) => {\n                let _ = std::fs::remove_file(output_file);\n                all_results.push(results)\n            }\n"))
v("temp-tempin", None, N, ("TempDir::with_prefix(\"rtest-\")", "tempfile::Builder::new().prefix(\"rtest-\").tempdir()"))
v("open-read", None, N, ("        File::open(path).map_err", "        std::fs::OpenOptions::new().read(true).open(path).map_err"))
# python
OUT = "    output_file.parent.mkdir(parents=True, exist_ok=True)\n"
WITH = "    with output_file.open(\"w\", encoding=\"utf-8\", errors=\"replace\") as f:\n"
ERR = "            import_errors.append(\n"
v("py-b-log", B, W, (ERR, "            with (root / \"rtest-errors.log\").open(\"a\") as log:\n                log.write(rel_path)\n" + ERR))
v("py-b-open", B, W, (ERR, "            with open(str(file_path) + \".err\", \"w\") as log:\n                log.write(rel_path)\n" + ERR))
v("py-b-text", B, W, (ERR, "            file_path.with_suffix(\".err\").write_text(rel_path)\n" + ERR))
v("py-b-mkdir", B, W, (OUT, OUT + "    (root / \".rtest_cache\").mkdir(exist_ok=True)\n"))
v("py-b-cwd", B, W, (OUT, OUT + "    Path(\".rtest\").mkdir(exist_ok=True)\n"))
v("py-b-rmtree", B, W, (OUT, OUT + "    import shutil\n\n    for d in sorted(test_dirs):\n        shutil.rmtree(os.path.join(d, \"__pycache__\"), ignore_errors=True)\n"), ("import inspect\n", "import inspect\nimport os\n"))
v("py-b-main", B, A, ("    return run_tests(\n", "    (root / \".rtest\").touch()\n    return run_tests(\n"))
v("py-b-mark", B, M, ("\nfrom ", "\nopen(\"marks.txt\", \"w\").close()\nfrom "))
v("py-open", None, W, (WITH, "    with open(output_file, \"w\", encoding=\"utf-8\", errors=\"replace\") as f:\n"))
v("py-local", None, W, (OUT + "    # Lone surrogates in captured output have no JSON form that the runner can read\n" + WITH, "    target = Path(output_file)\n    target.parent.mkdir(parents=True, exist_ok=True)\n    with target.open(mode=\"w\", encoding=\"utf-8\", errors=\"replace\") as f:\n"))
v("py-helper", None, W, ("def run_tests(\n", "def _prepare(target: Path) -> Path:\n    target.parent.mkdir(parents=True, exist_ok=True)\n    return target\n\n\ndef run_tests(\n"), (OUT, "    target = _prepare(output_file)\n"), (WITH, WITH.replace("output_file", "target")))
v("py-makedirs", None, W, (OUT, "    os.makedirs(os.path.dirname(output_file) or \".\", exist_ok=True)\n"), ("import inspect\n", "import inspect\nimport os\n"))
v("py-atomic", None, W, (WITH, WITH.replace("output_file.open", "partial.open")), (OUT, OUT + "    partial = output_file.with_suffix(\".partial\")\n"), ("    has_failures = ", "    partial.replace(output_file)\n    has_failures = "))
v("py-string", None, W, ("    root_str = str(root.resolve())\n", "    root_str = str(root.resolve()).replace(\"\\\\\", \"\\\\\")\n"))
v("py-main-var", None, A, ("    output_file: Path = args.out\n", "    options = vars(args)\n    output_file: Path = options[\"out\"]\n"))
v("py-main-inline", None, A, ("output_file=output_file,", "output_file=args.out,"))
