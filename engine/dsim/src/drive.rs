//! Search, minimisation, replay, evidence.
use crate::exec::Runner;
use crate::scen::*;
use crate::spec::*;
use crate::sys;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Clone, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: Viol,
    /// Search seed and case number the failure was found at.
    pub seed: u64,
    pub case: u64,
    /// Hash of the complete event log of each execution.
    pub log_hashes: Vec<u64>,
    pub scenario: Scenario,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub class: String,
    /// Text that occurs in the violation's message.
    pub matches: String,
    /// Narrower: the scenario kind, or empty.
    #[serde(default)]
    pub kind: String,
    pub what: String,
    /// Replay file, relative to /verif, that still shows the finding.
    pub witness: String,
}

pub fn root() -> String {
    match std::env::var("DSIM_ROOT") {
        Ok(r) => r,
        Err(_) => "/verif".into(),
    }
}
pub fn load_known(prop: &str) -> Vec<Known> {
    let Ok(b) = sys::read_file(&format!("{}/known_findings.json", root())) else {
        return vec![];
    };
    let v: Value = match serde_json::from_slice(&b) {
        Ok(v) => v,
        Err(e) => crate::rt::harness_fail(&format!("known_findings.json: {e}")),
    };
    let mut out = vec![];
    for k in v["findings"].as_array().cloned().unwrap_or_default() {
        match serde_json::from_value::<Known>(k) {
            Ok(k) if k.property == prop => out.push(k),
            Ok(_) => {}
            Err(e) => crate::rt::harness_fail(&format!("known_findings.json: {e}")),
        }
    }
    out
}
fn is_known<'a>(ks: &'a [Known], sc: &Scenario, v: &Viol) -> Option<&'a Known> {
    ks.iter().find(|k| {
        k.class == v.class && v.msg.contains(&k.matches) && (k.kind.is_empty() || k.kind == sc.kind)
    })
}

pub fn case_rng(seed: u64, prop: &str, case: u64) -> Rng {
    Rng::new(mix(hash_bytes(seed ^ 0x5eed, prop.as_bytes()), case))
}

fn case_hash(sc: &Scenario) -> u64 {
    hash_bytes(3, &serde_json::to_vec(sc).unwrap_or_default())
}

/// Evaluate one scenario; returns the violation and the schedules' deviations.
pub fn evaluate(
    ck: &Check,
    r: &mut Runner,
    m: &mut Meter,
    sc: &Scenario,
) -> (Option<Viol>, Vec<Vec<Dev>>, Vec<u64>) {
    let mut cx = Ctx::new(r, m, sc);
    let v = (ck.eval)(sc, &mut cx);
    (v, cx.devs, cx.hashes)
}

#[derive(Serialize, Deserialize)]
struct WorkerOut {
    meter: Meter,
    found: Option<(u64, Scenario, Viol)>,
    samples: Vec<Scenario>,
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub workers: usize,
    pub secs: u64,
    pub cases: u64,
    pub evidence: bool,
}

fn read_u64(p: *mut u8) -> u64 {
    unsafe { (p as *const u64).read_volatile() }
}

pub fn check(ck: &Check, main: fn(), o: &Opts) -> i32 {
    let t0 = sys::real_now();
    let known = load_known(ck.id);
    // Known findings first: their witnesses must still fail as described.
    {
        let mut r = Runner::new(main);
        let mut m = Meter::default();
        for k in &known {
            let Ok(b) = sys::read_file(&format!("{}/{}", root(), k.witness)) else {
                crate::rt::harness_fail(&format!("missing witness {}", k.witness));
            };
            let rp: Replay = match serde_json::from_slice(&b) {
                Ok(v) => v,
                Err(e) => crate::rt::harness_fail(&format!("witness {}: {e}", k.witness)),
            };
            if let (Some(v), _, _) = evaluate(ck, &mut r, &mut m, &rp.scenario) {
                if is_known(&known, &rp.scenario, &v).is_some() {
                    sys::out(&format!("KNOWN-FINDING: property={} {}\n", ck.id, k.what));
                }
            }
        }
    }
    let slot = 64usize << 20;
    let shm = sys::mmap_shared(slot * o.workers + 4096);
    let next = shm; // shared flag: smallest failing case
    unsafe { (next as *mut u64).write_volatile(u64::MAX) };
    let slots = unsafe { shm.add(4096) };
    let end = t0 + o.secs * 1_000_000_000;
    let mut pids = vec![];
    for w in 0..o.workers {
        let pid = sys::fork();
        if pid == 0 {
            sys::die_with_parent();
            let cpus = sys::cpus();
            sys::pin_cpu(cpus[w % cpus.len()]);
            let out = worker(ck, main, o, w as u64, end, &known, next);
            let v = serde_json::to_vec(&out).unwrap();
            if v.len() + 8 > slot {
                crate::rt::harness_fail("worker output too large");
            }
            unsafe {
                let p = slots.add(w * slot);
                std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(8), v.len());
                (p as *mut u64).write_volatile(v.len() as u64);
            }
            sys::exit_group(0);
        }
        pids.push(pid);
    }
    let mut bad = false;
    for pid in pids {
        if let Some((_, st)) = sys::wait4(pid, false) {
            bad |= st != 0;
        }
    }
    if bad {
        sys::err("dsim: a worker failed\n");
        return 2;
    }
    let mut meter = Meter::default();
    let mut found: Option<(u64, Scenario, Viol)> = None;
    let mut samples = vec![];
    for w in 0..o.workers {
        let p = unsafe { slots.add(w * slot) };
        let n = read_u64(p) as usize;
        let b = unsafe { std::slice::from_raw_parts(p.add(8), n) };
        let out: WorkerOut = match serde_json::from_slice(b) {
            Ok(v) => v,
            Err(e) => {
                sys::err(&format!("dsim: worker output: {e}\n"));
                return 2;
            }
        };
        meter.merge(out.meter);
        samples.extend(out.samples);
        if let Some(f) = out.found {
            if found.as_ref().is_none_or(|x| f.0 < x.0) {
                found = Some(f);
            }
        }
    }
    let search_s = (sys::real_now() - t0) as f64 / 1e9;
    let mut code = 0;
    if let Some((case, sc, v)) = &found {
        let mut r = Runner::new(main);
        let budget = if o.tier == "quick" { 45 } else { 120 };
        let rp = minimise(ck, &mut r, sc, v, o.seed, *case, budget, &known);
        let dir = format!("{}/work", root());
        sys::mkdir_p(&dir);
        let path = format!("{dir}/{}-{:016x}.json", ck.id, case_hash(&rp.scenario));
        let _ = sys::write_file(&path, serde_json::to_string_pretty(&rp).unwrap().as_bytes());
        sys::out(&format!(
            "{}: {}\n  found at seed={} case={} after {} executions; minimised replay written\n",
            rp.violation.class, rp.violation.msg, o.seed, case, meter.execs
        ));
        sys::out(&format!("VIOLATION property={} replay={}\n", ck.id, path));
        code = 1;
    }
    if o.evidence {
        evidence(
            ck,
            o,
            &meter,
            &samples,
            search_s,
            (sys::real_now() - t0) as f64 / 1e9,
            code,
            known.len(),
        );
    }
    sys::out(&format!(
        "{} {}: {} cases, {} executions, {} steps, {} schedules, {} faults fired, {:.1} s: {}\n",
        ck.id,
        o.tier,
        meter.cases,
        meter.execs,
        meter.steps,
        meter.scheds.len(),
        meter.faults.values().sum::<u64>(),
        search_s,
        if code == 0 { "held" } else { "VIOLATED" }
    ));
    code
}

fn worker(
    ck: &Check,
    main: fn(),
    o: &Opts,
    w: u64,
    end: u64,
    known: &[Known],
    next: *mut u8,
) -> WorkerOut {
    let mut r = Runner::new(main);
    let mut m = Meter::default();
    let mut samples = vec![];
    let mut found = None;
    let mut case = w;
    while case < o.cases && sys::real_now() < end && case < read_u64(next) {
        let mut rng = case_rng(o.seed, ck.id, case);
        let sc = {
            let dummy = Scenario::new(ck.id, "");
            let mut gm = Meter::default();
            let mut cx = Ctx::new(&mut r, &mut gm, &dummy);
            let sc = (ck.generate)(&mut rng, &mut cx);
            m.execs += gm.execs;
            m.steps += gm.steps;
            m.edges += gm.edges;
            m.sim_ns += gm.sim_ns;
            sc
        };
        m.cases += 1;
        *m.kinds.entry(sc.kind.clone()).or_insert(0) += 1;
        let h = case_hash(&sc);
        let e0: u64 = m.probes.values().sum();
        let (v, _, _) = evaluate(ck, &mut r, &mut m, &sc);
        if m.probes.values().sum::<u64>() > e0 && m.case_hashes.insert(h) {
            m.nontrivial += 1;
        }
        if samples.is_empty() && case >= o.workers as u64 {
            samples.push(sc.clone());
        }
        if let Some(v) = v {
            if let Some(k) = is_known(known, &sc, &v) {
                *m.known.entry(k.what.clone()).or_insert(0) += 1;
            } else if !(0..3).any(|_| {
                evaluate(ck, &mut r, &mut Meter::default(), &sc)
                    .0
                    .is_some_and(|x| x.class == v.class)
            }) {
                // Something outside the simulation (the machine) interfered.
                sys::err(&format!("dsim: case {case}: did not repeat: {v:?}\n"));
                m.unrepeated += 1;
                if m.unrepeated > 20 {
                    crate::rt::harness_fail("executions do not repeat");
                }
            } else {
                found = Some((case, sc, v));
                unsafe {
                    if case < read_u64(next) {
                        (next as *mut u64).write_volatile(case);
                    }
                }
                break;
            }
        }
        case += o.workers as u64;
    }
    WorkerOut {
        meter: m,
        found,
        samples,
    }
}

// ---------------------------------------------------------------- minimiser

struct Min<'a> {
    ck: &'a Check,
    r: &'a mut Runner,
    m: Meter,
    class: String,
    end: u64,
    best: Scenario,
    viol: Viol,
    devs: Vec<Vec<Dev>>,
    hashes: Vec<u64>,
    known: &'a [Known],
    tries: u64,
}
impl Min<'_> {
    fn time_up(&self) -> bool {
        sys::real_now() > self.end
    }
    /// Does the candidate still fail in the same way? Then adopt it.
    fn try_it(&mut self, c: Scenario) -> bool {
        if c == self.best || self.time_up() {
            return false;
        }
        self.tries += 1;
        let (v, d, h) = evaluate(self.ck, self.r, &mut self.m, &c);
        match v {
            Some(v) if v.class == self.class && is_known(self.known, &c, &v).is_none() => {
                self.best = c;
                self.viol = v;
                self.devs = d;
                self.hashes = h;
                true
            }
            _ => false,
        }
    }
    /// Remove parts of a list (ddmin).
    fn ddmin(
        &mut self,
        len: fn(&Scenario, &str) -> usize,
        del: fn(&mut Scenario, &str, usize, usize),
        key: &str,
    ) -> bool {
        let mut any = false;
        let mut n = len(&self.best, key);
        let mut chunk = n;
        while chunk >= 1 {
            let mut i = 0;
            while i < n {
                if self.time_up() {
                    return any;
                }
                let k = chunk.min(n - i);
                let mut c = self.best.clone();
                del(&mut c, key, i, k);
                if self.try_it(c) {
                    any = true;
                    n = len(&self.best, key);
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2).min(chunk - 1);
        }
        any
    }
}

fn split_lines(b: &Bytes) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    for &c in &b.0 {
        cur.push(c);
        if c == b'\n' {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

pub fn minimise(
    ck: &Check,
    r: &mut Runner,
    sc: &Scenario,
    v: &Viol,
    seed: u64,
    case: u64,
    secs: u64,
    known: &[Known],
) -> Replay {
    let mut m = Min {
        ck,
        r,
        m: Meter::default(),
        class: v.class.clone(),
        end: sys::real_now() + secs * 1_000_000_000,
        best: sc.clone(),
        viol: v.clone(),
        devs: vec![],
        hashes: vec![],
        known,
        tries: 0,
    };
    // Establish deviations and hashes of the starting point.
    let (mut v0, mut d, mut h) = evaluate(ck, m.r, &mut m.m, sc);
    for _ in 0..3 {
        if v0.as_ref().map(|x| &x.class) != Some(&v.class) {
            (v0, d, h) = evaluate(ck, m.r, &mut m.m, sc);
        }
    }
    if v0.as_ref().map(|x| &x.class) != Some(&v.class) {
        crate::rt::harness_fail(&format!("failure did not repeat: {v:?} then {v0:?}"));
    }
    m.devs = d;
    m.hashes = h;
    // Schedules: the default one if that is enough, else explicit decisions.
    let mut c = m.best.clone();
    c.scheds = vec![];
    if !m.try_it(c) {
        let k = m.best.scheds.len();
        for i in 0..k {
            let mut c = m.best.clone();
            c.scheds[i] = Sched::Default;
            if !m.try_it(c) {
                if let Some(d) = m.devs.get(i).cloned() {
                    let mut c = m.best.clone();
                    c.scheds[i] = Sched::Replay(d);
                    m.try_it(c);
                }
            }
        }
    }
    for round in 0..4 {
        let before = m.best.clone();
        let sh = m.best.shrink.clone();
        let has = |k: &str| sh.iter().any(|x| x == k);
        // Simple settings.
        for f in [
            (|c: &mut Scenario| c.pipes = Pipes::default()) as fn(&mut Scenario),
            |c| c.dirseed = 0,
            |c| c.cpus = 1,
            |c| c.hseed = 1,
            |c| c.pipes.chunk = 0,
        ] {
            let mut c = m.best.clone();
            f(&mut c);
            m.try_it(c);
        }
        m.ddmin(
            |s, _| s.faults.len(),
            |s, _, i, k| {
                s.faults.drain(i..i + k);
            },
            "",
        );
        m.ddmin(
            |s, _| s.muts.len(),
            |s, _, i, k| {
                s.muts.drain(i..i + k);
            },
            "",
        );
        let keys: Vec<String> = m
            .best
            .p
            .keys()
            .filter(|k| k.starts_with('L'))
            .cloned()
            .collect();
        for key in keys {
            m.ddmin(
                |s, k| {
                    s.p.get(k)
                        .and_then(|v| v.as_array())
                        .map(|a| a.len())
                        .unwrap_or(0)
                },
                |s, key, i, k| {
                    if let Some(Value::Array(a)) = s.p.get_mut(key) {
                        a.drain(i..i + k);
                    }
                },
                &key,
            );
        }
        if has("script") {
            m.ddmin(
                |s, _| s.script.as_ref().map(|x| x.ops.len()).unwrap_or(0),
                |s, _, i, k| {
                    if let Some(x) = s.script.as_mut() {
                        x.ops.drain(i..i + k);
                    }
                },
                "",
            );
            // Individual edits of multi-edit changes.
            let n = m.best.script.as_ref().map(|x| x.ops.len()).unwrap_or(0);
            for i in 0..n {
                let l = |s: &Scenario| match s.script.as_ref().and_then(|x| x.ops.get(i)) {
                    Some(crate::client::COp::Edit { edits, .. }) => edits.len(),
                    _ => 0,
                };
                let mut j = 0;
                while l(&m.best) > 1 && j < l(&m.best) {
                    let mut c = m.best.clone();
                    if let Some(crate::client::COp::Edit { edits, .. }) =
                        c.script.as_mut().and_then(|x| x.ops.get_mut(i))
                    {
                        edits.remove(j);
                    }
                    if !m.try_it(c) {
                        j += 1;
                    }
                }
            }
        }
        if has("args") {
            m.ddmin(
                |s, _| s.args.len().saturating_sub(1),
                |s, _, i, k| {
                    s.args.drain(i + 1..i + 1 + k);
                },
                "",
            );
        }
        if has("tree") {
            m.ddmin(
                |s, _| s.tree.len(),
                |s, _, i, k| {
                    let ks: Vec<String> = s.tree.keys().skip(i).take(k).cloned().collect();
                    for x in ks {
                        s.tree.remove(&x);
                    }
                },
                "",
            );
        }
        if has("lines") {
            let files: Vec<String> = m
                .best
                .tree
                .iter()
                .filter(|(_, n)| n.kind == Kind::File)
                .map(|(k, _)| k.clone())
                .collect();
            for f in files {
                m.ddmin(
                    |s, f| {
                        s.tree
                            .get(f)
                            .map(|n| split_lines(&n.data).len())
                            .unwrap_or(0)
                    },
                    |s, f, i, k| {
                        if let Some(n) = s.tree.get_mut(f) {
                            let mut l = split_lines(&n.data);
                            l.drain(i..i + k);
                            n.data = Bytes(l.concat());
                        }
                    },
                    &f,
                );
            }
        }
        // Schedules again, now that the rest is smaller.
        for i in 0..m.best.scheds.len() {
            if let Sched::Random { .. } = m.best.scheds[i] {
                if let Some(d) = m.devs.get(i).cloned() {
                    let mut c = m.best.clone();
                    c.scheds[i] = Sched::Replay(d);
                    m.try_it(c);
                }
            }
            if let Sched::Replay(_) = m.best.scheds[i] {
                let key = i.to_string();
                m.ddmin(
                    |s, k| match &s.scheds[k.parse::<usize>().unwrap()] {
                        Sched::Replay(v) => v.len(),
                        _ => 0,
                    },
                    |s, k, i, n| {
                        if let Sched::Replay(v) = &mut s.scheds[k.parse::<usize>().unwrap()] {
                            v.drain(i..i + n);
                        }
                    },
                    &key,
                );
            }
        }
        if m.best == before || m.time_up() || round == 3 {
            break;
        }
    }
    Replay {
        property: ck.id.to_string(),
        violation: m.viol.clone(),
        seed,
        case,
        log_hashes: m.hashes.clone(),
        scenario: m.best.clone(),
    }
}

// ------------------------------------------------------------------- replay

pub fn replay(cks: &[Check], main: fn(), path: &str, trace: bool) -> i32 {
    let Ok(b) = sys::read_file(path) else {
        sys::err(&format!("dsim: cannot read {path}\n"));
        return 2;
    };
    let rp: Replay = match serde_json::from_slice(&b) {
        Ok(v) => v,
        Err(e) => {
            sys::err(&format!("dsim: {path}: {e}\n"));
            return 2;
        }
    };
    let Some(ck) = cks.iter().find(|c| c.id == rp.property) else {
        sys::err("dsim: unknown property\n");
        return 2;
    };
    let mut r = Runner::new(main);
    let mut m = Meter::default();
    let mut cx = Ctx::new(&mut r, &mut m, &rp.scenario);
    cx.trace = trace;
    let v = (ck.eval)(&rp.scenario, &mut cx);
    if trace {
        for (i, o) in cx.traces.iter().enumerate() {
            sys::out(&format!("==== execution {i}: {:?}\n", o.status));
            for l in &o.trace {
                sys::out(&format!("{l}\n"));
            }
            for e in &o.history {
                sys::out(&format!(
                    "#{} t={}us {} {}\n",
                    e.seq,
                    (e.t - crate::rt::T0) / 1000,
                    e.dir,
                    e.msg
                ));
            }
            sys::out(&format!(
                "--- stdout\n{}\n--- stderr\n{}\n",
                o.stdout.str(),
                o.stderr.str()
            ));
            for (p, n) in &o.tree {
                if n.kind == Kind::File {
                    sys::out(&format!("--- file {p}\n{}\n", n.data.str()));
                }
            }
            sys::out(&format!("blocked: {:?}\n", o.blocked));
        }
    }
    let same = cx.hashes == rp.log_hashes;
    match v {
        Some(v) => {
            sys::out(&format!("{}: {}\n", v.class, v.msg));
            sys::out(&format!(
                "event logs identical to the recorded ones: {same}\n"
            ));
            sys::out(&format!("VIOLATION property={} replay={}\n", ck.id, path));
            1
        }
        None => {
            sys::out(&format!(
                "{}: the recorded scenario no longer violates the property\n",
                ck.id
            ));
            0
        }
    }
}

/// Run cases twice, in different processes with different heap histories, and
/// compare the complete event logs.
pub fn determinism(cks: &[Check], main: fn(), seed: u64, n: u64) -> i32 {
    let mut bad = 0;
    for ck in cks {
        let shm = sys::mmap_shared(4096 + 16 * n as usize * 2);
        let mut pids = vec![];
        for copy in 0..2u64 {
            for w in 0..4u64 {
                let pid = sys::fork();
                if pid == 0 {
                    let cpus = sys::cpus();
                    sys::pin_cpu(cpus[(copy * 4 + w) as usize % cpus.len()]);
                    let junk: Vec<Vec<u8>> = (0..copy * 1000)
                        .map(|i| vec![0u8; 100 + (i as usize % 777)])
                        .collect();
                    let mut r = Runner::new(main);
                    // Second copy: another distribution of cases over processes.
                    for case in 0..n {
                        if (if copy == 0 { case % 4 } else { (case / 3) % 4 }) != w {
                            continue;
                        }
                        let mut rng = case_rng(seed, ck.id, case);
                        let mut m = Meter::default();
                        let dummy = Scenario::new(ck.id, "");
                        let sc = {
                            let mut cx = Ctx::new(&mut r, &mut m, &dummy);
                            (ck.generate)(&mut rng, &mut cx)
                        };
                        let (v, _, h) = evaluate(ck, &mut r, &mut m, &sc);
                        let mut x = case_hash(&sc);
                        for y in h {
                            x = mix(x, y);
                        }
                        x = mix(
                            x,
                            hash_bytes(1, serde_json::to_string(&v).unwrap().as_bytes()),
                        );
                        unsafe {
                            (shm as *mut u64)
                                .add((copy * n + case) as usize)
                                .write_volatile(x)
                        };
                    }
                    drop(junk);
                    sys::exit_group(0);
                }
                pids.push(pid);
            }
        }
        for p in pids {
            if let Some((_, st)) = sys::wait4(p, false) {
                if st != 0 {
                    sys::out("worker failed\n");
                    return 2;
                }
            }
        }
        let mut diff = vec![];
        for c in 0..n {
            let a = unsafe { (shm as *mut u64).add(c as usize).read_volatile() };
            let b = unsafe { (shm as *mut u64).add((n + c) as usize).read_volatile() };
            if a != b {
                diff.push(c);
            }
        }
        sys::out(&format!(
            "{}: {} cases run twice, {} differ {:?}\n",
            ck.id,
            n,
            diff.len(),
            &diff[..diff.len().min(5)]
        ));
        bad += diff.len();
    }
    if bad > 0 { 1 } else { 0 }
}

// ----------------------------------------------------------------- evidence

fn cov_edges() -> u64 {
    let n = crate::rt::COV_LEN;
    let p = unsafe { crate::rt::COV };
    (0..n).filter(|&i| unsafe { *p.add(i) } != 0).count() as u64
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    ck: &Check,
    o: &Opts,
    m: &Meter,
    samples: &[Scenario],
    search_s: f64,
    wall: f64,
    code: i32,
    nknown: usize,
) {
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let v = json!({
        "property": ck.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": ck.level,
        "coverage": {
            "evaluations": m.cases,
            "distinct_nontrivial": m.nontrivial,
            "rule": format!("{} A case counts as non-trivial when it met one of the conditions listed under rare_conditions_hit and no case before it was the same.", ck.rule),
            "samples": samples.iter().take(2).collect::<Vec<_>>(),
            "simulated_runs": m.execs,
            "simulated_runs_per_hour": per_h(m.execs),
            "seeds_per_hour": per_h(m.cases),
            "simulated_seconds": m.sim_ns as f64 / 1e9,
            "scheduling_points": m.steps,
            "code_edges_executed": m.edges,
            "context_switches": m.switches,
            "most_threads_in_a_run": m.max_threads,
            "faults_planned": m.faults_planned,
            "faults_fired": m.faults,
            "kinds_of_case": m.kinds,
            "rare_conditions_hit": m.probes,
            "distinct_schedules": m.scheds.len(),
            "distinct_schedules_measure": "hash of the sequence of (from-thread, to-thread, operation at which the switch happened) of a run",
            "distinct_event_logs": m.behaviours.len(),
            "distinct_code_edges_reached": cov_edges(),
            "run_endings": m.statuses,
            "system_calls_refused_by_the_simulator": m.unknown,
            "known_findings_met": m.known,
            "known_findings_listed": nknown,
            "failures_that_did_not_repeat_and_were_dropped": m.unrepeated,
            "real_code": "all of jarl, jarl-core, jarl-lsp; std, rayon, crossbeam, lsp-server, clap, toml, serde and every other dependency except those listed as stand-ins",
            "stub": "libc system-call boundary (files, pipes, clock, random numbers, threads' scheduling) is the simulator; biome_rowan, biome_formatter, air_r_parser, air_r_syntax, air_workspace, air_fs, ignore, git2, colored, annotate-snippets, insta are offline stand-ins in /verif/standins",
        },
        "assumptions": ck.assumptions,
        "wall_s": wall,
        "violations": code,
    });
    let dir = format!("{}/evidence", root());
    sys::mkdir_p(&dir);
    let _ = sys::write_file(
        &format!("{dir}/{}.json", ck.id),
        serde_json::to_string_pretty(&v).unwrap().as_bytes(),
    );
}
