//! A scenario: everything one case of a property's check consists of. It is
//! plain data, evaluated by the property's `eval`; the same scenario always
//! evaluates to the same result. Replay files contain exactly one scenario.
use crate::client::Script;
use crate::exec::Runner;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub kind: String,
    pub tree: Tree,
    pub cwd: String,
    pub args: Vec<String>,
    pub script: Option<Script>,
    pub faults: Vec<Fault>,
    pub muts: Vec<Mutation>,
    pub pipes: Pipes,
    pub cpus: u32,
    pub hseed: u64,
    pub dirseed: u64,
    /// Schedule of each execution, in order; missing ones are `Default`.
    pub scheds: Vec<Sched>,
    /// Parameters of the kind. Arrays whose name starts with "L" may be
    /// shortened by the minimiser.
    pub p: BTreeMap<String, Value>,
    /// What the minimiser may touch: "tree", "lines", "args", "script".
    pub shrink: Vec<String>,
}

impl Scenario {
    pub fn new(prop: &str, kind: &str) -> Scenario {
        Scenario {
            prop: prop.into(),
            kind: kind.into(),
            tree: Tree::new(),
            cwd: "/w".into(),
            args: vec![],
            script: None,
            faults: vec![],
            muts: vec![],
            pipes: Pipes::default(),
            cpus: 1,
            hseed: 1,
            dirseed: 0,
            scheds: vec![],
            p: BTreeMap::new(),
            shrink: vec![],
        }
    }
    pub fn s(&self, k: &str) -> &str {
        self.p.get(k).and_then(|v| v.as_str()).unwrap_or("")
    }
    pub fn n(&self, k: &str) -> u64 {
        self.p.get(k).and_then(|v| v.as_u64()).unwrap_or(0)
    }
    pub fn b(&self, k: &str) -> bool {
        self.p.get(k).and_then(|v| v.as_bool()).unwrap_or(false)
    }
    pub fn get<T: serde::de::DeserializeOwned>(&self, k: &str) -> Option<T> {
        self.p
            .get(k)
            .and_then(|v| serde_json::from_value(v.clone()).ok())
    }
    pub fn put(&mut self, k: &str, v: impl Serialize) {
        self.p.insert(k.into(), serde_json::to_value(v).unwrap());
    }
    pub fn file(&mut self, path: &str, data: impl Into<Bytes>) {
        self.tree.insert(path.into(), Node::file(data));
    }
    /// A command-line run of this scenario's program.
    pub fn cli(&self, args: &[String]) -> Exec {
        let mut a = vec!["jarl".to_string()];
        a.extend(args.iter().cloned());
        let mut e = Exec::cli(&self.tree, &self.cwd, &a);
        e.cpus = self.cpus;
        e.seed = self.hseed;
        e.dirseed = self.dirseed;
        e
    }
    pub fn lsp(&self, script: &Script) -> Exec {
        let mut e = self.cli(&["server".to_string()]);
        e.actor = Actor::Lsp(script.clone());
        e.pipes = self.pipes.clone();
        e
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Viol {
    /// Kind of failure: what the minimiser preserves.
    pub class: String,
    pub msg: String,
}
pub fn viol(class: &str, msg: impl Into<String>) -> Option<Viol> {
    Some(Viol {
        class: class.into(),
        msg: msg.into(),
    })
}

/// Measured over a worker's life.
#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Meter {
    pub cases: u64,
    pub nontrivial: u64,
    pub execs: u64,
    pub steps: u64,
    pub edges: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub max_threads: u64,
    pub faults_planned: u64,
    pub faults: BTreeMap<String, u64>,
    pub kinds: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub unknown: BTreeMap<String, u64>,
    pub statuses: BTreeMap<String, u64>,
    pub scheds: BTreeSet<u64>,
    pub behaviours: BTreeSet<u64>,
    pub case_hashes: BTreeSet<u64>,
    #[serde(default)]
    pub unrepeated: u64,
    pub known: BTreeMap<String, u64>,
}
impl Meter {
    pub fn merge(&mut self, o: Meter) {
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        self.execs += o.execs;
        self.steps += o.steps;
        self.edges += o.edges;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.max_threads = self.max_threads.max(o.max_threads);
        self.faults_planned += o.faults_planned;
        for (a, b) in [
            (&mut self.faults, o.faults),
            (&mut self.kinds, o.kinds),
            (&mut self.probes, o.probes),
            (&mut self.unknown, o.unknown),
            (&mut self.statuses, o.statuses),
            (&mut self.known, o.known),
        ] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.scheds.extend(o.scheds);
        self.behaviours.extend(o.behaviours);
        self.case_hashes.extend(o.case_hashes);
        self.unrepeated += o.unrepeated;
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
}

/// Evaluation context: runs the scenario's executions in order.
pub struct Ctx<'a> {
    pub r: &'a mut Runner,
    pub m: &'a mut Meter,
    pub scheds: Vec<Sched>,
    n: usize,
    pub devs: Vec<Vec<Dev>>,
    pub hashes: Vec<u64>,
    pub trace: bool,
    pub traces: Vec<Outcome>,
}
impl<'a> Ctx<'a> {
    pub fn new(r: &'a mut Runner, m: &'a mut Meter, sc: &Scenario) -> Ctx<'a> {
        Ctx {
            r,
            m,
            scheds: sc.scheds.clone(),
            n: 0,
            devs: vec![],
            hashes: vec![],
            trace: false,
            traces: vec![],
        }
    }
    pub fn run(&mut self, mut e: Exec) -> Outcome {
        e.sched = self.scheds.get(self.n).cloned().unwrap_or(Sched::Default);
        self.n += 1;
        self.go(e, None)
    }
    pub fn run_main(&mut self, mut e: Exec, main: fn()) -> Outcome {
        e.sched = self.scheds.get(self.n).cloned().unwrap_or(Sched::Default);
        self.n += 1;
        self.go(e, Some(main))
    }
    /// An execution that serves as reference: always the default schedule.
    pub fn reference(&mut self, e: Exec) -> Outcome {
        self.go_ref(e)
    }
    fn go_ref(&mut self, mut e: Exec) -> Outcome {
        e.sched = Sched::Default;
        e.trace = self.trace;
        let o = self.r.run(&e);
        self.count(&e, &o);
        self.hashes.push(mix(o.stats.log_hash, o.stats.edges));
        if self.trace {
            self.traces.push(o.clone());
        }
        o
    }
    fn go(&mut self, mut e: Exec, main: Option<fn()>) -> Outcome {
        e.trace = self.trace;
        let o = match main {
            None => self.r.run(&e),
            Some(m) => self.r.run_main(&e, m),
        };
        self.count(&e, &o);
        self.devs.push(o.devs.clone());
        self.hashes.push(mix(o.stats.log_hash, o.stats.edges));
        if self.trace {
            self.traces.push(o.clone());
        }
        o
    }
    fn count(&mut self, e: &Exec, o: &Outcome) {
        let m = &mut self.m;
        m.execs += 1;
        m.steps += o.stats.steps;
        m.edges += o.stats.edges;
        m.switches += o.stats.switches;
        m.sim_ns += o.stats.sim_ns;
        m.max_threads = m.max_threads.max(o.stats.threads);
        m.faults_planned += e.faults.len() as u64;
        for f in &o.fired {
            let k = match &f.act {
                Act::Errno(n) => format!("{} fails with errno {}", f.op, n),
                Act::Short(_) => format!("short {}", f.op),
                Act::Kill => format!("kill at {}", f.op),
                Act::KillPartial(_) => format!("kill within {}", f.op),
                Act::PowerLoss(_) => format!("power loss at {}", f.op),
                Act::ShortThen(_, n) => format!("short {} then errno {}", f.op, n),
                Act::Stall(_) => format!("stalled {}", f.op),
            };
            *m.faults.entry(k).or_insert(0) += 1;
        }
        for (k, v) in &o.stats.unknown {
            *m.unknown.entry(k.clone()).or_insert(0) += v;
        }
        let st = match &o.status {
            Status::Exit(c) => format!("exit {c}"),
            s => format!("{s:?}"),
        };
        *m.statuses.entry(st).or_insert(0) += 1;
        if m.scheds.len() < 200_000 {
            m.scheds.insert(o.stats.sched_hash);
        }
        if m.behaviours.len() < 200_000 {
            m.behaviours.insert(o.stats.log_hash);
        }
    }
}

/// One property's check.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// Cases in the quick tier (also bounded by time).
    pub quick: u64,
    pub generate: fn(&mut Rng, &mut Ctx) -> Scenario,
    pub eval: fn(&Scenario, &mut Ctx) -> Option<Viol>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}
