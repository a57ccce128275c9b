TRUST = " Trusted: the models of std functions in sa/models.py, the ruff type stubs in stubs/, and rustc's MIR. Constructs the rule cannot read are listed as undecided in the evidence and raise no alarm."
CLAIMS = {
    "C01": ("linear content (conservation) analysis of symbolic MIR", "Every path of every strategy reachable from create_scheduler is shown to conserve the test list for all inputs." + TRUST),
    "C04": ("interprocedural fault-flow (must-reach) analysis of symbolic MIR", "Every way a pytest process can fail (non-zero, killed, not started, panic of its thread, lost handle) is shown to reach a non-zero result on every path." + TRUST),
    "C09": ("interprocedural fault-flow (must-reach) analysis of symbolic MIR", "Every way a native worker or its results file can fail, and every non-passing record, is shown to reach a non-zero result on every path." + TRUST),
    "C03": ("linear content (conservation) and handle-linearity analysis of symbolic MIR", "On every path every batch reaches exactly one started process, every handle is joined, both streams of every result are printed whole, and printed worker numbers differ." + TRUST),
    "C08": ("linear content (conservation) analysis of symbolic MIR", "On every path the command lines of the native workers hold exactly the collected files, each worker with its own results file." + TRUST),
    "C10": ("per-record accumulator and path-condition analysis of symbolic MIR", "Every record path adds one to exactly the counter printed for its outcome, failed records are listed and printed, and the status line is decided under all 32 combinations of outcomes." + TRUST),
    "C05": ("path-condition and provenance analysis of symbolic MIR, with a loop rule for the climb", "Every path of the grouping is shown to put its test into exactly one group, that of a directory known to hold a pyproject.toml with none passed over below it, or the root's when there is none; every rewritten id keeps its rest and has its path made relative." + TRUST),
    "C07": ("path enumeration over symbolic MIR (including clap's generated code), numbers decided over every order of the values involved", "Every path of the -n parser and of the capping, the numbers each runner hands its strategy, the bound on the batches of every strategy and the wiring from the command line are shown to agree with what was asked for. Known finding: with subprojects the limit holds per subproject." + TRUST),
    "C31": ("decision tables extracted from symbolic MIR and compared (FromStr, Display, validate_dist, the clap derive, create_scheduler)", "The names accepted on the command line, parsed, printed and served are read from all decision paths and shown to be one table without aliases, defaults or partial matches; the runner is shown to serve the configured name or to fail before starting anything." + TRUST),
    "C32": ("path-by-path decision tables of the file scan from symbolic MIR, checked for a family of file names", "Every path of the scan is read from MIR; for each, what it says of the entry (readable, regular file, name, extension, pattern, depth) is shown to agree with the rule for every name of the family the conditions can tell apart; searches are shown to use no depth, link or file-system limit, to prune exactly the hidden and cache directories and to go on after errors; the result is shown to be sorted and free of repetitions." + TRUST),
    "C26": ("provenance and lifetime analysis over symbolic MIR", "On every path of the native runner the name of each worker's result file is a fixed text around a number that differs from worker to worker, in the temporary directory made for the run; the files read back are those names; the directory is removed once, after every worker was awaited and every file read." + TRUST),
    "C33": ("effect analysis: classification of every call, with provenance of the written path (symbolic MIR; flow of the --out value through the Python package)", "Every call site of the Rust code is classified, and each one that writes, moves or deletes a file is followed to where its path comes from, which must be the temporary directory of the run; every call of the Python package that opens a file for writing, or moves or deletes one, is followed through variables, parameters and records to the value of --out." + TRUST),
    "C20": ("must-precede (gate) analysis over symbolic MIR paths of the two entries, with decision tables of the command line's own checks", "On every path of the two entries a start of test processes follows a collection known to have succeeded, an error list known to be empty and a collect_only known to be false, and collection follows an accepted mode and process count; every refusing path ends with the documented status, and the refusals (mode, count, missing path) are read as decision tables." + TRUST),
    "C24": ("panic-site enumeration with path-condition feasibility over symbolic MIR", "Every operation that can panic (unwrap, expect, index, slice, division, subtraction, capacity, copy_from_slice, clamp, step_by, chunks, char boundary and others) reachable from the library's entry points is enumerated on every path, and the conditions of the path are shown to exclude its failure; where they do not decide it, candidate texts are evaluated through the path's own conditions and a feasible failing one is reported." + TRUST),
    "C25": ("order-taint analysis over symbolic MIR plus a set-order lint over the Python syntax tree", "Every iteration of a hash map, hash set or directory listing in the Rust code is shown to be brought into a fixed order (by a sort whose key tells all elements apart, or a commutative use) before anything that is collected, assigned, printed or returned depends on it; the three runners collect workers' results in the order of their numbers; no clock, readiness test or random source reaches them; the Python worker iterates no set or listing in an order that shows. Which of several errors is reported first is not covered." + TRUST),
    "C27": ("happens-before ordering of process, thread, pipe, lock and channel events over symbolic MIR", "On every path of the three runners a process with pipes is run by something that empties both at once, all starts of workers come before any wait for one, no lock is held over a wait, and no channel is emptied by a holder of its sender." + TRUST),
    "C29": ("path-by-path provenance and decision tables over symbolic MIR (reader of the configuration, and every user of it)", "Every path of the reader of pyproject.toml is shown to fill each setting from every string of its own key, unchanged, and to leave it empty only when that key is absent or malformed or the file cannot be read; every way to set up a collection, a search of a file and a native run is shown to use each setting in its own place, with its own default exactly when it is empty." + TRUST),
    "C06": ("symbolic reconstruction of command lines from MIR, checked list by list", "On every path to a process start the program, every list of arguments (whole, in order, unchanged), the directory, --rootdir and the environment are shown to be the configured ones; KEY=VALUE entries are shown to be split at the first '='." + TRUST),
    "C02": ("key-provenance dataflow analysis of symbolic MIR", "Every grouping strategy's key is shown to be made only of the file (and class) part of the id, and every group to stay whole and in order." + TRUST),
}
PY = "path-enumerating symbolic interpretation of the Python syntax tree"
PYTRUST = " Trusted: the models of Python builtins and standard library calls in sa/pyx.py. Constructs the rule cannot read are listed as undecided in the evidence and raise no alarm."
CLAIMS.update({
    "C12": (PY + ", with exception-flow and per-record rules", "On every path of the worker (any test raising anything) each discovered test gets exactly one record, and nothing a test raises ends the run." + PYTRUST),
    "C13": (PY + ", with handler-to-outcome classification", "Every path of the test-running function is shown to report passed only when nothing was raised, failed for AssertionError, skipped for the skip signal and error otherwise." + PYTRUST),
    "C14": (PY + ", with typestate of instance, setup and teardown", "On every path of a test's run: fresh instance, setup before the body, teardown after it, output redirected around all of it." + PYTRUST),
    "C15": (PY + ", with product/row provenance rules", "Every path of the case expansion yields the full product and passes each value under its own name." + PYTRUST),
    "C16": (PY + " and symbolic MIR, with a freshness (seen-set) rule on id lists", "Every id handed out is shown to be tested against and added to the set of ids already given, for both implementations." + PYTRUST),
    "C17": (PY + ", with must-precede rules on skip decisions", "Every path that runs user code of a test is shown to follow a negative skip decision over all marks of function, class and module." + PYTRUST),
    "C18": (PY + ", with path-condition rules on the context manager's results", "Every path of raises' exit is shown to suppress exactly the expected exceptions with a matching text and to fail otherwise." + PYTRUST),
    "C22": ("path-enumerating symbolic interpretation of Rust MIR and the Python syntax tree, with must-match rules on names", "Every place that makes a test is shown to be under a match of its own name, every name passed over to have failed every pattern, for both implementations." + TRUST + PYTRUST),
    "C11": ("cross-language protocol comparison: symbolic MIR of the sender against the symbolic interpretation of the Python receiver, and the derived deserializer against the records written", "Every command line path is parsed symbolically against the declared options, every record the worker can write is typed against the fields the runner reads, and every outcome and exit status against those accepted." + TRUST + PYTRUST),
    "C28": (PY + ", with typestate of loaded modules and provenance of their names", "Every path that loads a file is shown to load that file, under a name holding its whole path, registered before it runs; every path of a run removes exactly the loaded names, after the tests." + PYTRUST),
    "C30": (PY + ", with object-identity and attribute-effect rules", "Every marker path is shown to return the object it decorates and to keep marks recorded before." + PYTRUST),
})
NA = {
    "C34": "Equality with pytest's own collection quantifies over the behaviour of a second program (pytest, with plugins and conftest hooks) on all projects; no sound static argument over rtest's source bounds it.",
    "C35": "Outcome equality with pytest quantifies over arbitrary test code run under two different runners (fixtures, plugins, hooks); it is not a property of rtest's source alone.",
    "C36": "Balance depends on numeric distribution (quotients, remainders, iteration counts) of runtime lengths; deciding it needs arithmetic reasoning over loops that this family does not provide; no soundness consequence is lost because C01 and C08 decide completeness.",
}
NOTES = "All checks are static: they read /repo's current source (rustc MIR through a rustc_private driver in driver/, Python through ast) and run none of it. ./check <id> decides one property."
