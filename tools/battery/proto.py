P = "python/rtest/worker/runner.py"
M = "python/rtest/worker/__main__.py"
N = "src/native_runner.rs"
CLS = '''    if !python_classes.is_empty() {
        cmd.arg("--python-classes");
        for pattern in python_classes {
            cmd.arg(pattern);
        }
    }
'''
FNS = CLS.replace("classes", "functions")
FILES = '''    cmd.arg("--");
    for file in files {
        cmd.arg(file);
    }
'''
HEAD = '''    cmd.arg("-m")
        .arg("rtest.worker")
        .arg("--root")
        .arg(root)
        .arg("--out")
        .arg(output_file);
'''
STRUCT = '''    pub error: Option<ErrorInfo>,
    #[serde(default)]
    pub error_type: Option<String>,
}
'''
CODE = '''        let exit_code = output.status.code().unwrap_or(-1);
        // Exit code 1 is expected when tests fail, only report unexpected codes
        if exit_code != 1 {
'''
ARGCLS = '''        "--python-classes",
        nargs="+",
        default=["Test*"],
'''
FILEARG = '''        "files",
        nargs="+",
        type=Path,
'''
RET = '''    return run_tests(
        root=root,
        output_file=output_file,
        test_files=test_files,
        python_classes=python_classes,
        python_functions=python_functions,
    )
'''
DUMP = '''            result_dict: dict[str, object] = asdict(result)
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
'''
OPEN = '    with output_file.open("w", encoding="utf-8", errors="replace") as f:\n'
STAT = '''    has_failures = any(r.outcome in ("failed", "error") for r in results)
    return 1 if has_failures else 0'''
REASON = '            reason: str = str(reason_raw) if reason_raw else ""\n'
EXCOUT = '''    except AssertionError as e:
        outcome = "failed"
        error_info = {"traceback": traceback.format_exc()}
'''


def v(name, want, **files):
    return ("pr-" + name, {{"n": N, "m": M, "p": P}[k]: e for k, e in files.items()}, want)


VARIANTS = [
    # behaviour kept
    v("rf-args", [], n=[(CLS, CLS.replace('''        for pattern in python_classes {
            cmd.arg(pattern);
        }
''', "        cmd.args(python_classes);\n")), (FILES, '    cmd.arg("--").args(files);\n')]),
    v("rf-helper", [], n=[(CLS, '    add_patterns(&mut cmd, "--python-classes", python_classes);\n'), (FNS, '    add_patterns(&mut cmd, "--python-functions", python_functions);\n'),
                          ("fn run_worker(", '''fn add_patterns(cmd: &mut Command, flag: &str, patterns: &[String]) {
    if patterns.is_empty() {
        return;
    }
    cmd.arg(flag);
    for pattern in patterns {
        cmd.arg(pattern);
    }
}

fn run_worker(''')]),
    v("rf-array", [], n=[(HEAD, '    cmd.args(["-m", "rtest.worker", "--root"]).arg(root).arg("--out").arg(output_file);\n')]),
    v("rf-unbuffered", [], n=[('    cmd.arg("-m")\n', '    cmd.arg("-u").arg("-m")\n')]),
    v("rf-order", [], n=[(CLS + "\n", ""), ("    // Use -- to sep", CLS + "\n    // Use -- to sep")]),
    v("rf-len", [], n=[(CLS, CLS.replace("!python_classes.is_empty()", "python_classes.len() > 0"))]),
    v("rf-match-code", [], n=[(CODE, '''        let exit_code = output.status.code().unwrap_or(-1);
        if !matches!(exit_code, 0 | 1) {
''')]),
    v("rf-equals", [], n=[(HEAD, HEAD.replace('''        .arg("--root")
        .arg(root)
''', '''        .arg(format!("--root={}", root.display()))
'''))]),
    v("rf-direct", [], m=[(RET, '''    return run_tests(
        args.root,
        args.out,
        args.files,
        python_classes=args.python_classes,
        python_functions=args.python_functions,
    )
''')]),
    v("rf-dest", [], m=[('        "--out",\n', '        "--out",\n        dest="output_file",\n'), ("args.out\n", "args.output_file\n")]),
    v("rf-short", [], m=[('        "--root",\n', '        "-r",\n        "--root",\n')]),
    v("rf-parser-fn", [], m=[("def main() -> int:\n", '''def _build_parser() -> argparse.ArgumentParser:
    parser = argparse.ArgumentParser(prog="python -m rtest.worker")
    parser.add_argument("--root", type=Path, required=True)
    parser.add_argument("--out", type=Path, required=True)
    parser.add_argument("--python-classes", nargs="+", default=["Test*"])
    parser.add_argument("--python-functions", nargs="+", default=["test*"])
    parser.add_argument("files", nargs="+", type=Path)
    return parser


def main2() -> int:
    args = _build_parser().parse_args()
    return run_tests(
        root=args.root,
        output_file=args.out,
        test_files=args.files,
        python_classes=args.python_classes,
        python_functions=args.python_functions,
    )


def old() -> int:
'''), ("sys.exit(main())", "sys.exit(main())"), ("def main2", "def main")]),
    v("rf-wrap", [], m=[(FILEARG, FILEARG.replace("        type=Path,\n", "")), ("= args.files\n", "= [Path(f) for f in args.files]\n")]),
    v("rf-exit", [], m=[("    sys.exit(main())", "    raise SystemExit(main())")]),
    v("rf-exit-var", [], m=[("    sys.exit(main())", "    status = main()\n    sys.exit(status)")]),
    v("rf-store-default", [], m=[(ARGCLS, '        "--python-classes",\n        nargs="+",\n        default=None,\n')]),
    v("rf-default-error", [], n=[("    pub error: Option<ErrorInfo>,", "    #[serde(default)]\n    pub error: Option<ErrorInfo>,")]),
    v("rf-extra-field", [], p=[("    error_type: str | None = None  # Exc", "    worker: int = 0\n    error_type: str | None = None  # Exc")]),
    v("rf-dict", [], p=[(DUMP, '''            f.write(json.dumps({
                "nodeid": result.nodeid,
                "outcome": result.outcome,
                "duration_ms": result.duration_ms,
                "stdout": result.stdout,
                "stderr": result.stderr,
                "error": result.error,
                "error_type": result.error_type,
            }, ensure_ascii=False) + "\\n")
''')]),
    v("rf-drop-none", [], p=[(DUMP, '''            result_dict = {k: val for k, val in asdict(result).items() if val is not None}
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
''')]),
    v("rf-vars", [], p=[(DUMP, '            f.write(json.dumps(vars(result), ensure_ascii=False) + "\\n")\n')]),
    v("rf-ignore", [], p=[(OPEN, OPEN.replace('"replace"', '"ignore"'))]),
    v("rf-round", [], p=[("    duration_ms = (time.perf_counter() - start_time) * 1000\n", "    duration_ms = round((time.perf_counter() - start_time) * 1000, 3)\n")]),
    v("rf-compact", [], p=[(DUMP, DUMP.replace("ensure_ascii=False)", 'ensure_ascii=False, separators=(",", ":"))'))]),
    v("rf-bytes", [], p=[(OPEN, '    with output_file.open("wb") as f:\n'), (DUMP, DUMP.replace('f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")', 'f.write((json.dumps(result_dict, ensure_ascii=False) + "\\n").encode("utf-8", "replace"))'))]),
    v("rf-intstatus", [], p=[(STAT, '    return int(any(r.outcome in ("failed", "error") for r in results))')]),
    # options
    v("underscore", ["C11"], n=[('"--python-functions"', '"--python_functions"')]),
    v("bytes-strict", ["C12"], p=[(OPEN, '    with output_file.open("wb") as f:\n'), (DUMP, DUMP.replace('f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")', 'f.write((json.dumps(result_dict, ensure_ascii=False) + "\\n").encode("utf-8"))'))]),
    v("renamed-option", ["C11"], m=[('        "--out",\n', '        "--output",\n        dest="out",\n')][:0] + [('"--python-classes",', '"--class-patterns",\n        dest="python_classes",')]),
    v("abbrev-ok", [], m=[('        "--out",\n', '        "--output",\n        dest="out",\n')]),
    v("no-abbrev", ["C11"], m=[('        "--out",\n', '        "--output",\n        dest="out",\n'), ('        prog="python', '        allow_abbrev=False,\n        prog="python')]),
    v("new-required", ["C11"], m=[('    parser.add_argument(\n        "files"', '    parser.add_argument("--worker-id", type=int, required=True)\n    parser.add_argument(\n        "files"')]),
    v("no-dashdash", ["C11"], n=[('    cmd.arg("--");\n', "")]),
    v("files-first", ["C11"], n=[(FILES, ""), ("    if !python_classes.is_empty() {", FILES + "    if !python_classes.is_empty() {")]),
    v("always-flag", ["C11"], n=[(CLS, CLS.replace("    if !python_classes.is_empty() {\n        cmd.arg", "    {\n        cmd.arg"))]),
    v("wrong-guard", ["C11"], n=[(FNS, FNS.replace("!python_functions.is_empty()", "!python_classes.is_empty()"))]),
    v("swapped-patterns", ["C11"], n=[(CLS, CLS.replace("in python_classes", "in python_functions")), ]),
    v("swapped-call", ["C11"], m=[("python_classes=python_classes,\n        python_functions=python_functions", "python_classes=python_functions,\n        python_functions=python_classes")]),
    v("swapped-read", ["C11"], m=[("= args.python_functions\n", "= args.python_classes\n")]),
    v("swapped-paths", ["C11"], n=[(HEAD, HEAD.replace(".arg(root)", ".arg(TMP)").replace(".arg(output_file)", ".arg(root)").replace(".arg(TMP)", ".arg(output_file)"))]),
    v("root-out", ["C11"], m=[("output_file=output_file", "output_file=root")]),
    v("repeated", ["C11"], n=[(CLS, '''    for pattern in python_classes {
        cmd.arg("--python-classes").arg(pattern);
    }
''')]),
    v("repeated-extend", [], n=[(CLS, '''    for pattern in python_classes {
        cmd.arg("--python-classes").arg(pattern);
    }
''')], m=[(ARGCLS, '        "--python-classes",\n        action="extend",\n        nargs="+",\n        default=None,\n')]),
    v("append", ["C11"], m=[(ARGCLS, ARGCLS.replace('        nargs="+",\n', '        action="append",\n        nargs="+",\n').replace('["Test*"]', "None"))]),
    v("one-pattern", ["C11"], m=[(ARGCLS, '        "--python-classes",\n        default=["Test*"],\n')]),
    v("one-file", ["C11"], m=[(FILEARG, FILEARG.replace('        nargs="+",\n', ""))]),
    v("joined", ["C11"], n=[(CLS, CLS.replace('''        for pattern in python_classes {
            cmd.arg(pattern);
        }
''', '        cmd.arg(python_classes.join(","));\n'))]),
    v("choices", ["C11"], m=[(ARGCLS, ARGCLS + '        choices=["Test*", "*Test", "*Tests"],\n')]),
    v("no-type", ["C11"], m=[(FILEARG, FILEARG.replace("        type=Path,\n", ""))]),
    v("drop-functions", ["C11"], m=[("        python_functions=python_functions,\n", "")]),
    v("not-passed", [], n=[(FNS, "    let _ = python_functions;\n")]),
    v("no-root", ["C11"], n=[(HEAD, HEAD.replace('        .arg("--root")\n        .arg(root)\n', ""))]),
    v("module", ["C11"], n=[('.arg("rtest.worker")', '.arg("rtest.workers")')]),
    v("no-m", ["C11"], n=[('    cmd.arg("-m")\n        .arg("rtest.worker")', '    cmd.arg("rtest.worker")')]),
    v("exit-dropped", ["C11"], m=[("    sys.exit(main())", "    main()")]),
    v("main-zero", ["C11"], m=[("    return run_tests(", "    run_tests("), ("        python_functions=python_functions,\n    )\n", "        python_functions=python_functions,\n    )\n    return 0\n")]),
    v("files-store", ["C11"], m=[("test_files=test_files", "test_files=[Path(p) for p in python_classes]")]),
    # records
    v("u64", ["C11"], n=[("    pub duration_ms: f64,", "    pub duration_ms: u64,"), ("result.duration_ms;", "result.duration_ms as f64;")]),
    v("rename-field", ["C11"], p=[('    duration_ms: float\n', '    duration: float\n')] + [("duration_ms=", "duration=")] * 3),
    v("camel", ["C11"], n=[("#[derive(Debug, Clone, Deserialize)]\npub struct TestResult", '#[derive(Debug, Clone, Deserialize)]\n#[serde(rename_all = "camelCase")]\npub struct TestResult')]),
    v("rename-rs", ["C11"], n=[("    #[serde(default)]\n    pub stdout", '    #[serde(default, rename = "out")]\n    pub stdout')]),
    v("required-new", ["C11"], n=[(STRUCT, STRUCT.replace("}\n", "    pub worker: usize,\n}\n"))]),
    v("required-type", ["C11"], n=[(STRUCT, STRUCT.replace("    #[serde(default)]\n    pub error_type: Option<String>", "    pub error_type: String"))]),
    v("reason-required", ["C11"], n=[("    #[serde(default)]\n    pub reason: Option<String>,", "    pub reason: String,"), ("    } else if let Some(reason) = &error.reason {", "    } else {\n        let reason = &error.reason;")]),
    v("rename-rs2", ["C11"], n=[("    pub nodeid: String,", '    #[serde(rename = "node_id")]\n    pub nodeid: String,')]),
    v("skip-first", ["C11"], n=[(CLS, CLS.replace("in python_classes {", "in python_classes.iter().skip(1) {"))]),
    v("lower", ["C11"], n=[(FNS, FNS.replace("arg(pattern)", "arg(pattern.to_lowercase())"))]),
    v("skip-some", ["C11"], n=[(FNS, FNS.replace("            cmd.arg(pattern);", "            if !pattern.is_empty() {\n                cmd.arg(pattern);\n            }"))]),
    v("deny", ["C11"], n=[("#[derive(Debug, Clone, Deserialize)]\npub struct TestResult", '#[derive(Debug, Clone, Deserialize)]\n#[serde(deny_unknown_fields)]\npub struct TestResult')], p=[("    error_type: str | None = None  # Exc", "    worker: int = 0\n    error_type: str | None = None  # Exc")]),
    v("drop-falsy", ["C11"], p=[(DUMP, '''            result_dict = {k: val for k, val in asdict(result).items() if val}
            f.write(json.dumps(result_dict, ensure_ascii=False) + "\\n")
''')]),
    v("pop-duration", ["C11"], p=[(DUMP, DUMP.replace("            f.write", "            if result.outcome == \"skipped\":\n                result_dict.pop(\"duration_ms\")\n            f.write"))]),
    v("dict-missing", ["C11"], p=[(DUMP, '''            f.write(json.dumps({
                "nodeid": result.nodeid,
                "outcome": result.outcome,
                "stdout": result.stdout,
                "stderr": result.stderr,
                "error": result.error,
                "error_type": result.error_type,
            }, ensure_ascii=False) + "\\n")
''')]),
    v("error-text", ["C11"], p=[(EXCOUT, EXCOUT.replace('{"traceback": traceback.format_exc()}', "traceback.format_exc()"))]),
    v("trace-list", ["C11"], p=[(EXCOUT, EXCOUT.replace("traceback.format_exc()", "traceback.format_exception(e)"))]),
    v("trace-key", ["C11"], p=[(EXCOUT, EXCOUT.replace('"traceback":', '"trace":'))]),
    v("reason-raw", ["C11"], p=[('        skip_reason_attr: str = str(getattr(obj, "__rtest_skip_reason__", ""))\n', '        skip_reason_attr = getattr(obj, "__rtest_skip_reason__", "")\n')]),
    v("reason-raw2", ["C11"], p=[(REASON, "            reason = reason_raw\n")]),
    v("none-stdout", ["C11"], p=[('            outcome="skipped",\n            duration_ms=0.0,\n', '            outcome="skipped",\n            duration_ms=0.0,\n            stdout=None,\n')]),
    v("none-duration", ["C11"], p=[('            outcome="skipped",\n            duration_ms=0.0,\n', '            outcome="skipped",\n            duration_ms=None,\n')]),
    v("outcome-new", ["C11"], p=[('            outcome="skipped",\n', '            outcome="skip",\n')]),
    v("errored", ["C11"], n=[('                "skipped" => aggregated.skipped += 1,\n', '                "skip" => aggregated.skipped += 1,\n')]),
    v("surrogates", ["C11"], p=[(OPEN, OPEN.replace(', errors="replace"', ""))]),
    v("ascii", ["C11"], p=[(OPEN, OPEN.replace(', encoding="utf-8", errors="replace"', "")), (DUMP, DUMP.replace(", ensure_ascii=False", ""))]),
    v("pass", ["C11"], p=[(OPEN, OPEN.replace('"replace"', '"surrogatepass"'))]),
    v("sig", ["C11"], p=[(OPEN, OPEN.replace('"utf-8"', '"utf-8-sig"'))]),
    v("locale", ["C11"], p=[(OPEN, OPEN.replace('encoding="utf-8", ', ""))]),
    v("indent", ["C11"], p=[(DUMP, DUMP.replace("ensure_ascii=False", "ensure_ascii=False, indent=2"))]),
    # status
    v("status-2", ["C11"], p=[(STAT, STAT.replace("return 1", "return 2"))]),
    v("accept-0", ["C11"], n=[(CODE, CODE.replace("exit_code != 1", "exit_code != 0"))]),
]
