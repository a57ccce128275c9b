"""C20: gates between collection and execution."""
P, CL, X, N = "src/pyo3.rs", "src/cli.rs", "python/rtest/exit_code.py", "src/collection/nodes.rs"
B = {"C20"}
VARIANTS = []


def v(name, want, f, *reps):
    VARIANTS.append(("gt-" + name, f if isinstance(f, dict) else {f: list(reps)}, want if want else set()))


ONLY = '''            // Exit after collection if --collect-only flag is set
            if args.collect_only {
                std::process::exit(exit_codes::OK);
            }

            // Read'''
ONLY2 = '''            if args.collect_only {
                std::process::exit(exit_codes::OK);
            }

            let exit_code'''
ERR = '''            // Exit early if there are collection errors
            if !errors.errors.is_empty() {
                std::process::exit(exit_codes::TESTS_FAILED);
            }

            if'''
ERR2 = '''            // Exit early if there are collection errors to prevent test execution
            if !errors.errors.is_empty() {
                std::process::exit(exit_codes::TESTS_FAILED);
            }
'''
ERR3 = '''    if !errors.errors.is_empty() {
        return exit_codes::TESTS_FAILED;
    }
'''
VAL = '''    if let Err(e) = args.validate_dist() {
        eprintln!("Error: {e}");
        std::process::exit(exit_codes::TESTS_FAILED);
    }

'''
v("b-only", B, P, (ONLY, "            // Read"))
v("b-only2", B, P, (ONLY2, "            let exit_code"))
v("b-only-dist", B, P, (ONLY2, ONLY2.replace("args.collect_only", "args.collect_only && args.dist == \"no\"")))
v("b-err", B, P, (ERR, "            if"))
v("b-err-nodes", B, P, (ERR, ERR.replace("!errors.errors.is_empty()", "!errors.errors.is_empty() && test_nodes.is_empty()")))
v("b-err-all", B, P, (ERR2, ERR2.replace("!errors.errors.is_empty()", "errors.errors.len() > 1")))
v("b-err-api", B, P, (ERR3, ""))
v("b-err-code", B, P, (ERR2, ERR2.replace("TESTS_FAILED", "OK")))
v("b-err-api-code", B, P, (ERR3, ERR3.replace("exit_codes::TESTS_FAILED", "exit_codes::USAGE_ERROR")))
v("b-val", B, P, (VAL, "    if let Err(e) = args.validate_dist() {\n        eprintln!(\"Error: {e}\");\n    }\n\n"))
v("b-val-gone", B, P, (VAL, ""))
v("b-val-code", B, P, (VAL, VAL.replace("TESTS_FAILED", "OK")))
v("b-num", B, P, ("        Err(e) => {\n            eprintln!(\"Error: {e}\");\n            std::process::exit(exit_codes::TESTS_FAILED);\n        }\n    };\n    let worker_count", "        Err(e) => {\n            eprintln!(\"Error: {e}\");\n            None\n        }\n    };\n    let worker_count"))
v("b-codes", B, CL, ("USAGE_ERROR: i32 = 4", "USAGE_ERROR: i32 = 2"))
v("b-codes-failed", B, CL, ("TESTS_FAILED: i32 = 1", "TESTS_FAILED: i32 = 0"))
v("b-handle", B, P, ("exit_codes::USAGE_ERROR", "exit_codes::TESTS_FAILED"))
v("b-py", B, X, ("USAGE_ERROR: Final = 4", "USAGE_ERROR: Final = 2"))
v("b-missing", B, N, ("            for path in &resolved {\n                if !path.exists() {\n                    return Err(CollectionError::FileNotFound(path.clone()));\n                }\n            }\n", ""))
v("b-missing-kind", B, N, ("return Err(CollectionError::FileNotFound(path.clone()));", "return Err(CollectionError::SkipError(path.display().to_string()));"))
v("b-missing-some", B, N, ("                if !path.exists() {\n", "                if !path.exists() && path.extension().is_some() {\n"))
v("len", None, P, (ERR, ERR.replace("!errors.errors.is_empty()", "errors.errors.len() > 0")))
v("len1", None, P, (ERR2, ERR2.replace("!errors.errors.is_empty()", "errors.errors.len() >= 1")))
v("iter", None, P, (ERR2, ERR2.replace("!errors.errors.is_empty()", "errors.errors.first().is_some()")))
v("has", None, P, (ERR2, "            let failed = !errors.errors.is_empty();\n            if failed {\n                std::process::exit(exit_codes::TESTS_FAILED);\n            }\n"))
v("helper", None, P, (ERR, "            stop_on_errors(&errors);\n\n            if"), (ERR2, "            stop_on_errors(&errors);\n"), ("fn main_cli_with_args(", "#[allow(dead_code)]\nfn dummy() {}\n\n#[pyfunction]\nfn main_cli_with_args(") if False else ("/// Get the current Python executable path from sys.executable\n", "fn stop_on_errors(errors: &crate::collection_integration::CollectionErrors) {\n    if !errors.errors.is_empty() {\n        std::process::exit(exit_codes::TESTS_FAILED);\n    }\n}\n\n/// Get the current Python executable path from sys.executable\n"))
v("match-val", None, P, (VAL, "    match args.validate_dist() {\n        Ok(()) => {}\n        Err(e) => {\n            eprintln!(\"Error: {e}\");\n            std::process::exit(exit_codes::TESTS_FAILED);\n        }\n    }\n\n"))
v("is-err", None, P, (VAL, "    let valid = args.validate_dist();\n    if valid.is_err() {\n        eprintln!(\"Error: unsupported distribution\");\n        std::process::exit(exit_codes::TESTS_FAILED);\n    }\n\n"))
v("only-else", None, P, (ONLY2, '''            if args.collect_only {
                std::process::exit(exit_codes::OK);
            }
            log::debug!("running");

            let exit_code'''))
v("only-first", None, P, ('''            if test_nodes.is_empty() {
                println!("No tests found.");
                std::process::exit(exit_codes::OK);
            }

            // Exit after collection if --collect-only flag is set
            if args.collect_only {
                std::process::exit(exit_codes::OK);
            }

            // Read''', '''            if test_nodes.is_empty() || args.collect_only {
                if test_nodes.is_empty() {
                    println!("No tests found.");
                }
                std::process::exit(exit_codes::OK);
            }

            // Read'''))
v("missing-any", None, N, ("            for path in &resolved {\n                if !path.exists() {\n                    return Err(CollectionError::FileNotFound(path.clone()));\n                }\n            }\n", "            if let Some(path) = resolved.iter().find(|path| !path.exists()) {\n                return Err(CollectionError::FileNotFound(path.clone()));\n            }\n"))
v("missing-map", None, N, ("            for path in &resolved {\n                if !path.exists() {\n                    return Err(CollectionError::FileNotFound(path.clone()));\n                }\n            }\n", "            for path in resolved.iter() {\n                if path.exists() {\n                    continue;\n                }\n                return Err(CollectionError::FileNotFound(path.to_path_buf()));\n            }\n"))
