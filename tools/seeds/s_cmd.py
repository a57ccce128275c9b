SC, W, N, R, X = "src/scheduler.rs", "src/worker.rs", "src/native_runner.rs", "src/runner.rs", "src/pytest_executor.rs"
SEEDS = [
 dict(id="c06-env-value-split", property="C06", edits={R: [(
  '''                if let Some((key, value)) = env_str.split_once('=') {
                    Some((key.to_string(), value.to_string()))
''', '''                let mut parts = env_str.split('=');
                if let (Some(key), Some(value)) = (parts.next(), parts.next()) {
                    Some((key.to_string(), value.to_string()))
''')]}, needs="an --env value that contains '='", breaks="the value is cut at its first '='",
  rs='''
fn main() {
    let r = PytestRunner::new(strs(&["A=1", "URL=db://h?x=1&y=2", "EMPTY="]));
    let want: Vec<(String, String)> = [("A", "1"), ("URL", "db://h?x=1&y=2"), ("EMPTY", "")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    check(r.env_vars == want, &format!("{:?}", r.env_vars));
}
'''),
 dict(id="c06-inherited-env", property="C06", edits={W: [(
  '''            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }
''', '''            for (key, value) in task.env_vars {
                // Passing on what is inherited anyway is not needed
                if std::env::var_os(&key).is_none() {
                    cmd.env(key, value);
                }
            }
''')]}, needs="a configured variable that rtest's own environment also has, with another value", breaks="the configured value does not reach the parallel pytest processes",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap();
    std::env::set_var("SEED_MODE", "outer");
    let program = script("fake", "test \\"$SEED_MODE\\" = inner");
    let env = vec![("SEED_MODE".to_string(), "inner".to_string())];
    for use_subprojects in [true, false] {
        let config = ParallelExecutionConfig {
            program: &program, initial_args: &[], worker_count: 2, dist_mode: "load", rootpath: &root, use_subprojects, env_vars: &env,
        };
        let code = execute_tests_parallel(&config, strs(&["test_a.py::test_1", "test_b.py::test_2"]));
        check(code == 0, "the configured value did not reach the process");
    }
}
'''),
 dict(id="c06-root-once", property="C06", edits={R: [(
  '''                        working_dir: Some(subproject_root.clone()),
''', '''                        working_dir: Some(if worker_id < worker_count {
                            subproject_root.clone()
                        } else {
                            config.rootpath.to_path_buf()
                        }),
''')]}, needs="more subproject batches than workers", breaks="the batches beyond that run in the root directory, where their ids do not exist",
  rs='''
fn main() {
    let root = std::env::current_dir().unwrap();
    let mut tests = Vec::new();
    for d in ["a", "b", "c"] {
        std::fs::create_dir_all(root.join(d)).unwrap();
        std::fs::write(root.join(d).join("pyproject.toml"), "").unwrap();
        std::fs::write(root.join(d).join("test_x.py"), "").unwrap();
        tests.push(format!("{d}/test_x.py::test_1"));
    }
    std::fs::write(root.join("pyproject.toml"), "").unwrap();
    let program = script("fake", "test -e test_x.py");
    let config = ParallelExecutionConfig {
        program: &program, initial_args: &[], worker_count: 2, dist_mode: "load", rootpath: &root, use_subprojects: true, env_vars: &[],
    };
    check(execute_tests_parallel(&config, tests) == 0, "a process runs outside the directory of its tests");
}
'''),
]
P = "src/subproject.rs"
SEEDS += [
 dict(id="c05-parametrized-id", property="C05", edits={P: [(
  '''    match node.split_once("::") {
        Some((path, test)) => (path, Some(test)),
        None => (node, None),
    }
''', '''    // The case id of a parametrized test may hold anything
    let name = node.split('[').next().unwrap_or(node);
    match name.split_once("::") {
        Some((path, _)) => (path, Some(&node[path.len() + 2..])),
        None => (node, None),
    }
''')]}, needs="a directory whose name holds a '['", breaks="the test is put into the root's group and its path is not made relative",
  rs='''
use crate::subproject::*;
fn main() {
    let root = std::env::current_dir().unwrap();
    std::fs::create_dir_all(root.join("a[1]")).unwrap();
    std::fs::write(root.join("a[1]").join("pyproject.toml"), "").unwrap();
    std::fs::write(root.join("a[1]").join("test_x.py"), "").unwrap();
    let tests = strs(&["a[1]/test_x.py::test_1[a::b]"]);
    let groups = group_tests_by_subproject(&root, &tests);
    check(groups.get(&root.join("a[1]")) == Some(&tests), &format!("{groups:?}"));
    let new = make_test_paths_relative(&tests, &root, &root.join("a[1]"));
    check(new == strs(&["test_x.py::test_1[a::b]"]), &format!("{new:?}"));
}
'''),
 dict(id="c05-outermost", property="C05", edits={P: [(
  '''            if current.join("pyproject.toml").exists() {
                return current.to_path_buf();
            }

            match current.parent() {
                Some(parent) => current = parent,
                None => break,
            }
        }
    }

    rootpath.to_path_buf()
''', '''            if current.join("pyproject.toml").exists() {
                found = Some(current);
            }

            match current.parent() {
                Some(parent) => current = parent,
                None => break,
            }
        }
        if let Some(found) = found {
            return found.to_path_buf();
        }
    }

    rootpath.to_path_buf()
'''), ("        let mut current = parent;\n", "        let mut current = parent;\n        let mut found = None;\n")]}, needs="a subproject inside another one", breaks="the test is put into the outer subproject's group",
  rs='''
use crate::subproject::*;
fn main() {
    let root = std::env::current_dir().unwrap();
    let inner = root.join("a/b");
    std::fs::create_dir_all(&inner).unwrap();
    for d in [root.join("a"), inner.clone()] {
        std::fs::write(d.join("pyproject.toml"), "").unwrap();
    }
    std::fs::write(inner.join("test_x.py"), "").unwrap();
    let groups = group_tests_by_subproject(&root, &strs(&["a/b/test_x.py::test_1"]));
    check(groups.keys().eq([&inner]), &format!("{groups:?}"));
}
'''),
 dict(id="c05-trim-prefix", property="C05", edits={P: [(
  '''                    let mut new_node = relative_path.to_string_lossy().into_owned();
                    if let Some(test) = test_part {
                        new_node.push_str("::");
                        new_node.push_str(test);
                    }
                    new_node
''', '''                    let mut parts = vec![relative_path.to_string_lossy().into_owned()];
                    parts.extend(test_part.iter().flat_map(|t| t.split("::")).filter(|p| !p.is_empty()).map(str::to_string));
                    parts.join("::")
''')]}, needs="a case id with empty parts between '::' separators, such as [a::::b]", breaks="the rewritten id loses characters and names no test",
  rs='''
use crate::subproject::*;
fn main() {
    let root = std::env::current_dir().unwrap();
    let new = make_test_paths_relative(&strs(&["a/test_x.py::T::test_1[::1]", "a/test_x.py::test_2[x::::y]"]), &root, &root.join("a"));
    check(new == strs(&["test_x.py::T::test_1[::1]", "test_x.py::test_2[x::::y]"]), &format!("{new:?}"));
}
'''),
]
U, L, SC = "src/utils.rs", "src/cli.rs", "src/scheduler.rs"
SEEDS += [
 dict(id="c07-group-batches", property="C07", edits={SC: [(
  '''    let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();

    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
''', '''    // About as many groups as workers: no need to join any
    if groups.len() <= num_workers + num_workers / 4 {
        return groups;
    }

    let mut workers: Vec<Vec<T>> = (0..num_workers).map(|_| Vec::new()).collect();

    for (i, group) in groups.into_iter().enumerate() {
        workers[i % num_workers].extend(group);
''')]}, needs="at least four workers and one or two files more than workers, with --dist loadfile or loadscope", breaks="more batches, and so processes, than workers asked for",
  rs='''
use crate::scheduler::*;
fn main() {
    for n in 2..9 {
        for k in 1..40 {
            let tests: Vec<String> = (0..k).map(|i| format!("t{i}.py::test_{i}")).collect();
            let b = create_scheduler(DistributionMode::LoadFile).distribute_tests(tests, n);
            check(b.len() <= n, &format!("{} batches for {n} workers and {k} tests", b.len()));
        }
    }
}
'''),
 dict(id="c07-uncapped-cpus", property="C07", edits={U: [(
  '''    match max_processes {
        Some(max) => desired.min(max),
        None => desired,
    }
''', '''    match max_processes {
        Some(max) if desired > max => max.max(desired / 16),
        _ => desired,
    }
''')]}, needs="a requested count more than 16 times --maxprocesses", breaks="the number of workers exceeds --maxprocesses",
  rs='''
use crate::cli::NumProcesses;
fn main() {
    for n in 0..200 {
        for m in 1..40 {
            let k = determine_worker_count(Some(NumProcesses::Count(n)), Some(m));
            check(k == n.min(m), &format!("{k} workers for -n {n} --maxprocesses {m}"));
        }
    }
}
'''),
 dict(id="c07-too-large", property="C07", edits={L: [(
  '''                    Err(_) => Err(format!("Invalid number: {s}")),
''', '''                    Err(e) if *e.kind() == std::num::IntErrorKind::PosOverflow => {
                        Ok(Some(NumProcesses::Logical))
                    }
                    Err(_) => Err(format!("Invalid number: {s}")),
''')]}, needs="an -n beyond the range of usize", breaks="the text is silently taken for 'logical' instead of being rejected",
  rs='''
use crate::cli::Args;
use clap::Parser;
fn main() {
    for bad in ["99999999999999999999999", "-1", "", "1.5", "0x4", "AUTO", " 4"] {
        let a = Args::parse_from(["rtest".to_string(), format!("--numprocesses={bad}")]);
        check(a.get_num_processes().is_err(), &format!("-n {bad:?} was accepted"));
    }
}
'''),
 dict(id="c31-trim", property="C31", edits={SC: [(
  '''        match s {
            "load" =>''', '''        match s.trim() {
            "load" =>''')]}, needs="blanks around the name of a mode", breaks="a name that is no mode is accepted",
  rs='''
use crate::cli::Args;
use clap::Parser;
use std::str::FromStr;
fn main() {
    for n in ["load", "loadscope", "loadfile", "worksteal", "no"] {
        let m = DistributionMode::from_str(n);
        check(m.is_ok() && m.unwrap().to_string() == n, &format!("{n} does not print as itself"));
        for bad in [format!("{n}group"), format!(" {n}"), format!("{n} "), n.to_uppercase(), format!("{n}x")] {
            let a = Args::parse_from(["rtest".to_string(), format!("--dist={bad}")]);
            check(a.validate_dist().is_err() && DistributionMode::from_str(&bad).is_err(), &format!("{bad:?} is accepted"));
        }
    }
}
'''),
 dict(id="c31-no-chunks", property="C31", edits={SC: [(
  '''            vec![tests]
        }
    }
}

fn extract_scope''', '''            // Stay below the argument limit of the operating system
            tests.chunks(10_000).map(|c| c.to_vec()).collect()
        }
    }
}

fn extract_scope''')]}, needs="more than 10000 tests with --dist no", breaks="the mode without distribution runs several processes",
  rs='''
fn main() {
    let tests: Vec<String> = (0..25_000).map(|i| format!("t.py::test_{i}")).collect();
    let b = create_scheduler(DistributionMode::No).distribute_tests(tests.clone(), 4);
    check(b.len() == 1 && b[0] == tests, &format!("{} batches without distribution", b.len()));
}
'''),
]
