SC, W, N, R = "src/scheduler.rs", "src/worker.rs", "src/native_runner.rs", "src/runner.rs"
SEEDS = [
 dict(id="c01-worksteal-window", property="C01", edits={SC: [(
  '''        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
    }
}

pub struct NoScheduler;''',
  '''        let mut rest = tests.into_iter();
        for _ in 0..64 {
            for worker in workers.iter_mut() {
                worker.extend(rest.next());
            }
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
    }
}

pub struct NoScheduler;''')]},
  needs="worksteal with more than 64 tests per worker", breaks="tests beyond the 64th of each worker are never assigned",
  rs='''
fn main() {
    let tests: Vec<String> = (0..300).map(|i| format!("test_a.py::test_{i}")).collect();
    for mode in ["load", "loadscope", "loadfile", "worksteal", "no"] {
        let s = create_scheduler(mode.parse::<DistributionMode>().unwrap());
        for n in [1, 2, 3, 7] {
            let mut got: Vec<String> = s.distribute_tests(tests.clone(), n).into_iter().flatten().collect();
            got.sort();
            let mut want = tests.clone();
            want.sort();
            check(got == want, &format!("{mode} with {n} workers assigns {} of {} tests", got.len(), want.len()));
        }
    }
}
'''),
 dict(id="c02-split-large-groups", property="C02", edits={SC: [(
  '''    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
    }
''',
  '''    for (i, mut group) in groups.into_iter().enumerate() {
        // Keep one huge group from blocking its worker
        if group.len() > 40 {
            let rest = group.split_off(group.len() / 2);
            workers[(i + 1) % num_workers].extend(rest);
        }
        workers[i % num_workers].extend(group);
    }
''')]},
  needs="loadfile or loadscope and a file with more than 40 tests", breaks="the tests of one file are split over two workers",
  rs='''
fn main() {
    let tests: Vec<String> = (0..90).map(|i| format!("test_{}.py::TestA::test_{i}", i % 2)).collect();
    for mode in ["loadscope", "loadfile"] {
        let s = create_scheduler(mode.parse::<DistributionMode>().unwrap());
        for n in [2, 3] {
            let batches = s.distribute_tests(tests.clone(), n);
            for f in ["test_0.py", "test_1.py"] {
                let k = batches.iter().filter(|b| b.iter().any(|t| t.starts_with(f))).count();
                check(k == 1, &format!("{mode}: {f} runs on {k} workers"));
            }
        }
    }
}
'''),
 dict(id="c04-signal-max", property="C04", edits={R: [(
  '''                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    } else {''',
  '''                eprint!("{}", result.stderr);
            }

            // Report the most severe code
            overall_exit_code = overall_exit_code.max(result.exit_code);
        }

        overall_exit_code
    } else {''')]},
  needs="subprojects, and a pytest process killed by a signal (exit code -1)", breaks="the run exits 0 although a pytest process was killed",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap();
    std::fs::create_dir_all(root.join("sub")).unwrap();
    std::fs::write(root.join("sub/pyproject.toml"), "").unwrap();
    std::fs::write(root.join("pyproject.toml"), "").unwrap();
    let program = script("fake", "kill -KILL $$");
    for use_subprojects in [true, false] {
        let config = ParallelExecutionConfig {
            program: &program, initial_args: &[], worker_count: 2, dist_mode: "load", rootpath: &root, use_subprojects, env_vars: &[],
        };
        let code = execute_tests_parallel(&config, strs(&["sub/test_a.py::test_1", "test_b.py::test_2"]));
        check(code != 0, "exit 0 although every pytest process was killed");
    }
}
'''),
 dict(id="c09-signal-as-failed-tests", property="C09", edits={N: [(
  '''        let exit_code = output.status.code().unwrap_or(-1);''',
  '''        let exit_code = output.status.code().unwrap_or(1);''')]},
  needs="a worker killed by a signal after it wrote passing results", breaks="a killed worker counts as one whose tests merely failed, so the run exits 0",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap();
    let line = r#"{"nodeid":"a.py::test","outcome":"passed","duration_ms":1.0,"stdout":"","stderr":"","error":null}"#;
    let ok = script("ok", &format!("while [ $1 != --out ]; do shift; done\\necho '{line}' > $2"));
    let killed = script("killed", &format!("while [ $1 != --out ]; do shift; done\\necho '{line}' > $2\\nkill -KILL $$"));
    for (python, good) in [(ok, true), (killed, false)] {
        let config = NativeRunnerConfig {
            python_executable: python, root_path: root.clone(), num_workers: 1,
            python_files: default_python_files(), python_classes: default_python_classes(), python_functions: default_python_functions(),
        };
        let code = execute_native(&config, vec![root.join("test_a.py")]);
        check((code == 0) == good, &format!("exit {code}, worker fine: {good}"));
    }
}
'''),
 dict(id="c22-glob-prefix", property="C22", edits={"src/collection/utils.rs": [(
  """    if let Ok(glob_pattern) = Pattern::new(pattern) {
        glob_pattern.matches(text)
""", """    if let Some(prefix) = pattern.strip_suffix("_*").filter(|p| !p.contains('*')) {
        // The usual test_* does not need a compiled pattern
        text.strip_prefix(prefix).is_some_and(|rest| rest.starts_with('_'))
    } else if let Ok(glob_pattern) = Pattern::new(pattern) {
        glob_pattern.matches(text)
""")]}, needs="a name pattern with a ? or [..] before its final _*", breaks="names that match the pattern are not collected",
  rs="""
fn main() {
    for (p, t, want) in [("test_*", "test_a", true), ("test_*", "tests", false), ("[tc]est_*", "test_a", true), ("t??t_*", "test_b", true), ("t??t_*", "best_b", false)] {
        check(collection::glob_match(p, t) == want, &format!("{p} and {t}: {}", !want));
    }
}
"""),
 dict(id="c11-one-flag-per-pattern", property="C11", edits={N: [(
  """    if !python_classes.is_empty() {
        cmd.arg("--python-classes");
        for pattern in python_classes {
            cmd.arg(pattern);
        }
    }

    if !python_functions.is_empty() {
        cmd.arg("--python-functions");
        for pattern in python_functions {
            cmd.arg(pattern);
        }
    }
""", """    for pattern in python_classes {
        cmd.arg("--python-classes").arg(pattern);
    }

    for pattern in python_functions {
        cmd.arg("--python-functions").arg(pattern);
    }
""")]}, needs="a project with two name patterns of one kind", breaks="the worker keeps only the last pattern, so tests named by the others are not run",
  rs="""
fn main() {
    let root = std::env::current_dir().unwrap();
    let repo = std::env::var("RTEST_REPO").unwrap();
    let python = script("python", &format!(r#"export PYTHONPATH={repo}/python PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python "$@""#));
    std::fs::write(root.join("test_a.py"), "def check_a():\\n    assert False\\n\\n\\ndef test_b():\\n    pass\\n").unwrap();
    for (patterns, good) in [(vec!["test*"], true), (vec!["check*", "test*"], false)] {
        let config = NativeRunnerConfig {
            python_executable: python.clone(), root_path: root.clone(), num_workers: 1,
            python_files: default_python_files(), python_classes: default_python_classes(), python_functions: strs(&patterns),
        };
        let code = execute_native(&config, vec![root.join("test_a.py")]);
        check((code == 0) == good, &format!("exit {code} with patterns {patterns:?}"));
    }
}
"""),
]
