CL, X = "src/cli.rs", "python/rtest/exit_code.py"
ARGS = '''
use clap::Parser as _;
fn args(v: &[&str]) -> cli::Args {
    cli::Args::try_parse_from(std::iter::once("rtest").chain(v.iter().copied())).ok().unwrap()
}
'''
SEEDS = [
 dict(id="c20-usage-code", property="C20", edits={CL: [("    pub const USAGE_ERROR: i32 = 4;", "    pub const USAGE_ERROR: i32 = TESTS_FAILED;")]},
  needs="a path on the command line that does not exist", breaks="the program exits with 1 instead of 4",
  rs='''
fn main() {
    check(cli::exit_codes::OK == 0 && cli::exit_codes::TESTS_FAILED == 1, "the other statuses");
    check(cli::exit_codes::USAGE_ERROR == 4, "the status for a missing path");
}
'''),
 dict(id="c20-py-code", property="C20", edits={X: [("    USAGE_ERROR: Final = 4", "    USAGE_ERROR: Final = 2")]},
  needs="a script that compares the status with ExitCodeValues.USAGE_ERROR", breaks="the name does not stand for the status the program exits with",
  py='''
import sys
from rtest.exit_code import ExitCodeValues as E
if (E.OK, E.TESTS_FAILED, E.USAGE_ERROR) != (0, 1, 4):
    print("FAILED", E.OK, E.TESTS_FAILED, E.USAGE_ERROR)
    sys.exit(1)
'''),
 dict(id="c20-count-unit", property="C20", edits={CL: [("                _ => match s.parse::<usize>() {", "                _ => match s.trim_end_matches(\"cpus\").trim().parse::<usize>() {")]},
  needs="-n with a count followed by text", breaks="an unsupported process count is accepted",
  rs=ARGS + '''
fn main() {
    for ok in ["1", "4", "auto", "logical", "007"] {
        check(args(&["-n", ok]).get_num_processes().is_ok(), ok);
    }
    for bad in ["", "x", "-1", "4x", "4cpus", "4 ", " 4", "1.5", "cpus", "0x4", "AUTO", "auto ", "1e3"] {
        check(args(&[&format!("-n={bad}")]).get_num_processes().is_err(), &format!("{bad:?} is refused"));
    }
}
'''),
 dict(id="c20-any-dist", property="C20", edits={CL: [("            Err(e) => Err(e.to_string()),", "            Err(_) if self.numprocesses.as_deref() == Some(\"1\") => Ok(()),\n            Err(e) => Err(e.to_string()),")]},
  needs="an unknown --dist with -n 1", breaks="an unsupported distribution mode is not rejected",
  rs=ARGS + '''
fn main() {
    for ok in ["load", "loadscope", "loadfile", "worksteal", "loadgroup", "no"] {
        let a = args(&["--dist", ok]);
        let b = args(&["--dist", ok, "-n", "2"]);
        check(a.validate_dist().is_ok() == b.validate_dist().is_ok(), ok);
    }
    for bad in ["", "x", "Load", "load ", "loads", "each"] {
        check(args(&[&format!("--dist={bad}")]).validate_dist().is_err(), &format!("{bad:?} is refused"));
        check(args(&[&format!("--dist={bad}"), "-n", "1"]).validate_dist().is_err(), &format!("{bad:?} is refused with -n 1"));
    }
}
'''),
]
