S, C, R, P = "src/scheduler.rs", "src/cli.rs", "src/runner.rs", "src/pyo3.rs"
PARSE = '''        match s {
            "load" => Ok(DistributionMode::Load),
            "loadscope" => Ok(DistributionMode::LoadScope),
            "loadfile" => Ok(DistributionMode::LoadFile),
            "worksteal" => Ok(DistributionMode::WorkSteal),
            "no" => Ok(DistributionMode::No),
            other => Err(ParseDistributionModeError::UnknownMode(other.to_string())),
        }
'''
PRINT = '''        match self {
            DistributionMode::Load => write!(f, "load"),
            DistributionMode::LoadScope => write!(f, "loadscope"),
            DistributionMode::LoadFile => write!(f, "loadfile"),
            DistributionMode::WorkSteal => write!(f, "worksteal"),
            DistributionMode::No => write!(f, "no"),
        }
'''
MAKE = '''    match mode {
        DistributionMode::Load => Box::new(LoadScheduler),
        DistributionMode::LoadScope => Box::new(LoadScopeScheduler),
        DistributionMode::LoadFile => Box::new(LoadFileScheduler),
        DistributionMode::WorkSteal => Box::new(WorkStealScheduler),
        DistributionMode::No => Box::new(NoScheduler),
    }
'''
VAL = '''        match self.dist.parse::<crate::scheduler::DistributionMode>() {
            Ok(_) => Ok(()),
            Err(e) => Err(e.to_string()),
        }
'''
NO = '''        if tests.is_empty() {
            vec![]
        } else {
            vec![tests]
        }
'''
RUN = '''    let distribution_mode = match config.dist_mode.parse::<DistributionMode>() {
        Ok(mode) => mode,
        Err(e) => {
            log::warn!("Invalid distribution mode '{}': {e}", config.dist_mode);
            return 1;
        }
    };
'''
OPT = '''    #[arg(long, default_value = "load")]
    pub dist: String,
'''


def sch(a, b):
    return {S: [(a, b)]}


VARIANTS = [
    ("mo-rf-if", sch(PARSE, '''        if s == "load" {
            return Ok(DistributionMode::Load);
        }
        if s == "loadscope" {
            return Ok(Self::LoadScope);
        }
        if s.eq("loadfile") {
            return Ok(Self::LoadFile);
        }
        let mode = match s {
            "worksteal" => Some(DistributionMode::WorkSteal),
            "no" => Some(DistributionMode::No),
            _ => None,
        };
        mode.ok_or_else(|| ParseDistributionModeError::UnknownMode(s.to_string()))
'''), []),
    ("mo-rf-helper", sch(PARSE, '''        parse_mode(s).ok_or(ParseDistributionModeError::UnknownMode(s.to_owned()))
    }
}

fn parse_mode(s: &str) -> Option<DistributionMode> {
    {
        match s {
            "no" => Some(DistributionMode::No),
            "load" => Some(DistributionMode::Load),
            "loadfile" => Some(DistributionMode::LoadFile),
            "loadscope" => Some(DistributionMode::LoadScope),
            "worksteal" => Some(DistributionMode::WorkSteal),
            _ => None,
        }
'''), []),
    ("mo-rf-bytes", sch(PARSE, PARSE.replace("match s {", "match s.as_bytes() {").replace('"load"', 'b"load"').replace('"loadscope"', 'b"loadscope"').replace('"loadfile"', 'b"loadfile"').replace('"worksteal"', 'b"worksteal"').replace('"no"', 'b"no"').replace("other => Err(ParseDistributionModeError::UnknownMode(other.to_string()))", "_ => Err(ParseDistributionModeError::UnknownMode(s.to_string()))")), []),
    ("mo-rf-empty", sch(PARSE, '        if s.is_empty() {\n            return Err(ParseDistributionModeError::UnknownMode(String::new()));\n        }\n' + PARSE), []),
    ("mo-rf-table", sch(PARSE, '''        const MODES: [(&str, fn() -> DistributionMode); 5] = [
            ("load", || DistributionMode::Load),
            ("loadscope", || DistributionMode::LoadScope),
            ("loadfile", || DistributionMode::LoadFile),
            ("worksteal", || DistributionMode::WorkSteal),
            ("no", || DistributionMode::No),
        ];
        MODES
            .iter()
            .find(|(name, _)| *name == s)
            .map(|(_, make)| make())
            .ok_or_else(|| ParseDistributionModeError::UnknownMode(s.to_string()))
'''), []),
    ("mo-rf-loop", sch(PARSE, '''        for mode in [
            DistributionMode::Load,
            DistributionMode::LoadScope,
            DistributionMode::LoadFile,
            DistributionMode::WorkSteal,
            DistributionMode::No,
        ] {
            if mode.name() == s {
                return Ok(mode);
            }
        }
        Err(ParseDistributionModeError::UnknownMode(s.to_string()))
    }
}

impl DistributionMode {
    fn name(&self) -> &'static str {
        match self {
            DistributionMode::Load => "load",
            DistributionMode::LoadScope => "loadscope",
            DistributionMode::LoadFile => "loadfile",
            DistributionMode::WorkSteal => "worksteal",
            DistributionMode::No => "no",
        }
'''), []),
    ("mo-rf-print", sch(PRINT, '''        let name = match self {
            DistributionMode::Load => "load",
            DistributionMode::LoadScope => "loadscope",
            DistributionMode::LoadFile => "loadfile",
            DistributionMode::WorkSteal => "worksteal",
            DistributionMode::No => "no",
        };
        f.write_str(name)
'''), []),
    ("mo-rf-pad", sch(PRINT, '''        let name = match self {
            DistributionMode::Load => "load",
            DistributionMode::LoadScope => "loadscope",
            DistributionMode::LoadFile => "loadfile",
            DistributionMode::WorkSteal => "worksteal",
            DistributionMode::No => "no",
        };
        write!(f, "{}", name)
'''), []),
    ("mo-rf-scope", sch(PRINT, PRINT.replace('write!(f, "loadscope")', '{\n                write!(f, "load")?;\n                write!(f, "{}", "scope")\n            }')), []),
    ("mo-rf-make", sch(MAKE, '''    let boxed: Box<dyn Scheduler> = match mode {
        DistributionMode::No => Box::new(NoScheduler),
        DistributionMode::LoadFile => Box::new(LoadFileScheduler),
        DistributionMode::LoadScope => Box::new(LoadScopeScheduler),
        DistributionMode::WorkSteal | DistributionMode::Load => Box::new(LoadScheduler),
    };
    boxed
'''), []),
    ("mo-rf-val", {C: [(VAL, '''        self.dist
            .parse::<crate::scheduler::DistributionMode>()
            .map(|_| ())
            .map_err(|e| e.to_string())
''')]}, []),
    ("mo-rf-val2", {C: [(VAL, '''        let mode: Result<crate::scheduler::DistributionMode, _> = std::str::FromStr::from_str(&self.dist);
        if let Err(e) = mode {
            return Err(format!("{e}"));
        }
        Ok(())
''')]}, []),
    ("mo-rf-val3", {C: [(VAL, '''        match self.dist.as_str() {
            "load" | "loadscope" | "loadfile" | "worksteal" | "no" => Ok(()),
            other => Err(format!("Unsupported distribution mode: '{other}'")),
        }
''')]}, []),
    ("mo-rf-no", sch(NO, '''        if tests.is_empty() {
            return Vec::new();
        }
        let mut all = Vec::with_capacity(1);
        all.push(tests);
        all
'''), []),
    ("mo-rf-no2", sch(NO, "        Some(tests).filter(|t| !t.is_empty()).into_iter().collect()\n"), []),
    ("mo-rf-run", {R: [(RUN, '''    let parsed = config.dist_mode.parse::<DistributionMode>();
    if let Err(e) = &parsed {
        log::warn!("Invalid distribution mode '{}': {e}", config.dist_mode);
        return 1;
    }
    let Ok(distribution_mode) = parsed else {
        return 1;
    };
''')]}, []),
    ("mo-rf-run2", {R: [(RUN, '''    let Ok(distribution_mode) = DistributionMode::from_str(config.dist_mode) else {
        log::warn!("Invalid distribution mode");
        return 2;
    };
'''), ("use std::path::Path;", "use std::path::Path;\nuse std::str::FromStr;")]}, []),
    ("mo-rf-error-text", sch("Supported modes: load, loadscope, loadfile, worksteal, no", "choose one of: no, load, loadfile, loadscope, worksteal"), []),
    ("mo-bug-trim", sch(PARSE, PARSE.replace("match s {", "match s.trim() {")), ["C31"]),
    ("mo-bug-case", sch(PARSE, PARSE.replace("match s {", "match s.to_lowercase().as_str() {")), ["C31"]),
    ("mo-bug-icase", sch(PARSE, "        if s.eq_ignore_ascii_case(\"no\") {\n            return Ok(DistributionMode::No);\n        }\n" + PARSE), ["C31"]),
    ("mo-bug-prefix", sch(PARSE, PARSE.replace('            other =>', '            group if group.starts_with("loadscope") => Ok(DistributionMode::LoadScope),\n            other =>')), ["C31"]),
    ("mo-bug-alias", sch(PARSE, PARSE.replace('"loadscope" =>', '"loadscope" | "loadgroup2" =>')), ["C31"]),
    ("mo-bug-empty", sch(PARSE, PARSE.replace('"load" =>', '"" | "load" =>')), ["C31"]),
    ("mo-bug-default", sch(PARSE, PARSE.replace("other => Err(ParseDistributionModeError::UnknownMode(other.to_string()))", 'other if other == "invalid" || other == "loadgroup" => Err(ParseDistributionModeError::UnknownMode(other.to_string())),\n            _ => Ok(DistributionMode::Load)')), ["C31"]),
    ("mo-bug-swap", sch(PARSE, PARSE.replace("Ok(DistributionMode::LoadScope)", "Ok(DistributionMode::X)").replace("Ok(DistributionMode::LoadFile)", "Ok(DistributionMode::LoadScope)").replace("DistributionMode::X", "DistributionMode::LoadFile")), ["C31"]),
    ("mo-bug-steal", sch(PARSE, PARSE.replace('            "worksteal" => Ok(DistributionMode::WorkSteal),', '            "worksteal" => Ok(DistributionMode::Load),')), ["C31"]),
    ("mo-bug-print", sch(PRINT, PRINT.replace('LoadFile => write!(f, "loadfile")', 'LoadFile => write!(f, "load-file")')), ["C31"]),
    ("mo-bug-print2", sch(PRINT, PRINT.replace('WorkSteal => write!(f, "worksteal")', 'WorkSteal => write!(f, "work")')), ["C31"]),
    ("mo-bug-make", sch(MAKE, MAKE.replace("Box::new(NoScheduler)", "Box::new(LoadScheduler)")), ["C31"]),
    ("mo-bug-make2", sch(MAKE, MAKE.replace("Box::new(LoadScopeScheduler)", "Box::new(LoadFileScheduler)")), ["C31"]),
    ("mo-bug-val-ok", {C: [(VAL, '''        match self.dist.parse::<crate::scheduler::DistributionMode>() {
            Err(e) if self.dist.starts_with("load") && self.dist.len() > 9 => Err(e.to_string()),
            Err(e) if !self.dist.starts_with("load") => Err(e.to_string()),
            _ => Ok(()),
        }
''')]}, ["C31"]),
    ("mo-bug-val-list", {C: [(VAL, '''        match self.dist.as_str() {
            "load" | "loadscope" | "loadfile" | "worksteal" | "no" | "each" => Ok(()),
            other => Err(format!("Unsupported distribution mode: '{other}'")),
        }
''')]}, ["C31"]),
    ("mo-bug-val-case", {C: [(VAL, VAL.replace("self.dist.parse", "self.dist.to_lowercase().parse"))]}, ["C31"]),
    ("mo-bug-val-trim", {C: [(VAL, VAL.replace("self.dist.parse", "self.dist.trim().parse"))]}, ["C31"]),
    ("mo-bug-default-opt", {C: [(OPT, OPT.replace('"load"', '"worksteal"'))]}, ["C31"]),
    ("mo-bug-no-chunks", sch(NO, "        tests.chunks(500).map(|c| c.to_vec()).collect()\n"), ["C31", "C01"]),
    ("mo-bug-no-spread", sch(NO, NO.replace("vec![tests]", "tests.into_iter().map(|t| vec![t]).collect()")), ["C31", "C01"]),
    ("mo-bug-run-default", {R: [(RUN, "    let distribution_mode = config.dist_mode.parse::<DistributionMode>().unwrap_or(DistributionMode::Load);\n")]}, ["C31"]),
    ("mo-bug-run-zero", {R: [(RUN, RUN.replace("return 1;", "return 0;"))]}, ["C31"]),
    ("mo-bug-run-trim", {R: [(RUN, RUN.replace("config.dist_mode.parse", "config.dist_mode.trim().parse"))]}, ["C31"]),
    ("mo-bug-run-fixed", {R: [("            let scheduler = create_scheduler(distribution_mode.clone());", "            let scheduler = create_scheduler(if worker_count == 1 { distribution_mode.clone() } else { DistributionMode::Load });")]}, ["C31"]),
    ("mo-bug-main", {P: [("args.validate_dist()", "args.get_num_processes()")]}, ["C31"]),
    ("mo-bug-error-text", sch("Supported modes: load, loadscope, loadfile, worksteal, no", "Supported modes: load, loadscope, loadfile, worksteal, each"), ["C31"]),
]
