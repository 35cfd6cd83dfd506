//! The simulated machine a child process runs in: threads that run one at a
//! time, a simulated clock, pipes, and the recorded history.
//!
//! Program threads are real pthreads; a baton decides which one runs. All
//! state below is only touched by the baton holder.
use crate::spec::*;
use crate::sys;
use crate::vfs::Vfs;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub static mut ACTIVE: bool = false;
static mut SIM: *mut Sim = std::ptr::null_mut();
/// Position of the running thread: code edges and synchronisation points.
pub static mut POS: u64 = 0;
pub static mut TRIGGER: u64 = u64::MAX;
pub static mut EDGES: u64 = 0;
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub const COV_LEN: usize = 1 << 20;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(u32::MAX) };
    static EXITING: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Wait { key: u64, bits: u32, deadline: u64 },
    Done,
}

pub struct Th {
    pub name: String,
    pub st: St,
    pub go: Box<AtomicU32>,
    pub pos: u64,
    pub real: u64,
    pub woken_by_timeout: bool,
    pub what: &'static str,
    /// A simulated party (editor), not a thread of the program.
    pub actor: bool,
}

pub struct Pipe {
    pub buf: std::collections::VecDeque<u8>,
    pub cap: usize,
    pub closed_w: bool,
    pub closed_r: bool,
    pub rng: Rng,
    pub chunk: usize,
}
impl Pipe {
    fn new(cap: usize, chunk: usize, seed: u64) -> Pipe {
        Pipe {
            buf: Default::default(),
            cap: cap.max(1),
            closed_w: false,
            closed_r: false,
            rng: Rng::new(seed),
            chunk,
        }
    }
    pub fn amount(&mut self, n: usize) -> usize {
        if self.chunk == 0 || n <= 1 {
            n
        } else {
            let c = 1 + self.rng.us(self.chunk);
            n.min(c)
        }
    }
}

pub const KEY_STDIN_R: u64 = 0xF000_0000_0000_0001;
pub const KEY_STDIN_W: u64 = 0xF000_0000_0000_0002;
pub const KEY_STDOUT_R: u64 = 0xF000_0000_0000_0003;
pub const KEY_STDOUT_W: u64 = 0xF000_0000_0000_0004;
pub const KEY_SLEEP: u64 = 0xF000_0000_0000_0005;
pub const KEY_HIST: u64 = 0xF000_0000_0000_0006;
pub const KEY_JOIN: u64 = 0xE000_0000_0000_0000;
pub const NEVER: u64 = u64::MAX;

pub struct Sim {
    pub ex: Exec,
    pub ths: Vec<Th>,
    pub cur: usize,
    pub now: u64,
    pub steps: u64,
    next_timer: u64,
    rng: Rng,
    pub rnd: Rng,
    edge_next: u64,
    hang_at: u64,
    hangs: u64,
    lone_yields: u32,
    replay: BTreeMap<u32, Vec<Dev>>,
    devs: Vec<Dev>,
    pub vfs: Vfs,
    pub stdin: Pipe,
    pub stdout: Pipe,
    /// stdout of the server is a pipe read by the client actor.
    pub stdout_is_pipe: bool,
    pub out: Vec<u8>,
    pub errb: Vec<u8>,
    pub history: Vec<Event>,
    pub ops: Vec<OpRec>,
    pub op_count: BTreeMap<(String, String), u32>,
    pub fault_hits: BTreeMap<usize, u32>,
    pub fired: Vec<Fault>,
    pub trace: Vec<String>,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    futex_ids: BTreeMap<u64, u64>,
    pub unknown: BTreeMap<String, u64>,
    reap: Option<(usize, u64)>,
    shm: *mut u8,
    seq: u64,
}

#[allow(static_mut_refs)]
pub fn g() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}

pub const SHM_LEN: usize = 192 << 20;

pub fn harness_fail(msg: &str) -> ! {
    sys::err(&format!("dsim: harness error: {msg}\n"));
    sys::exit_group(99)
}

pub struct RealFns {
    pub create: unsafe extern "C" fn(
        *mut u64,
        *const u8,
        extern "C" fn(*mut u8) -> *mut u8,
        *mut u8,
    ) -> i32,
    pub join: unsafe extern "C" fn(u64, *mut *mut u8) -> i32,
}
pub static mut REAL: Option<RealFns> = None;

pub fn init_real() {
    unsafe {
        let c = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        let j = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
        if c.is_null() || j.is_null() {
            harness_fail("dlsym");
        }
        #[allow(static_mut_refs)]
        {
            REAL = Some(RealFns {
                create: std::mem::transmute(c),
                join: std::mem::transmute(j),
            });
        }
    }
}
#[allow(static_mut_refs)]
pub fn real() -> &'static RealFns {
    unsafe { REAL.as_ref().unwrap() }
}

impl Sim {
    fn runnable(&self, exclude: Option<usize>) -> Vec<usize> {
        let n = self.ths.len();
        // Cyclic order starting after the current thread.
        (1..=n)
            .map(|i| (self.cur + i) % n)
            .filter(|&i| Some(i) != exclude && self.ths[i].st == St::Run)
            .collect()
    }
    fn starved(&self, t: usize) -> bool {
        matches!(self.ex.sched, Sched::Random { starve: Some(s), starve_steps, .. }
            if s as usize == t && self.steps < starve_steps)
    }
    fn set_trigger(&mut self) {
        unsafe {
            if self.ths[self.cur].actor {
                TRIGGER = u64::MAX;
                return;
            }
            let mut t = self.hang_at;
            t = t.min(self.edge_next);
            if let Some(v) = self.replay.get(&(self.cur as u32)) {
                if let Some(d) = v.last() {
                    if d.pos > POS {
                        t = t.min(d.pos);
                    }
                }
            }
            TRIGGER = t;
        }
    }
    /// The recorded decision for the current thread at the current position.
    fn replay_dev(&mut self) -> Option<u32> {
        let pos = unsafe { POS };
        let v = self.replay.get_mut(&(self.cur as u32))?;
        while let Some(d) = v.last() {
            if d.pos < pos {
                v.pop();
            } else {
                break;
            }
        }
        match v.last() {
            Some(d) if d.pos == pos => {
                let to = d.to;
                v.pop();
                Some(to)
            }
            _ => None,
        }
    }
    fn new_edge_budget(&mut self) {
        if let Sched::Random { edge_mean, .. } = self.ex.sched {
            if edge_mean > 0 {
                let u = (self.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
                let d = (-(1.0 - u).ln() * edge_mean as f64) as u64 + 1;
                self.edge_next = unsafe { POS } + d;
                return;
            }
        }
        self.edge_next = u64::MAX;
    }
    fn check_timers(&mut self) {
        if self.now < self.next_timer {
            return;
        }
        let mut next = NEVER;
        for t in self.ths.iter_mut() {
            if let St::Wait { deadline, .. } = t.st {
                if deadline <= self.now {
                    t.st = St::Run;
                    t.woken_by_timeout = true;
                } else {
                    next = next.min(deadline);
                }
            }
        }
        self.next_timer = next;
    }
    fn switch_to(&mut self, to: usize, reap: bool) {
        let me = self.cur;
        if to == me {
            return;
        }
        self.lone_yields = 0;
        unsafe {
            self.ths[me].pos = POS;
            self.switches += 1;
            self.sched_hash = mix(
                mix(self.sched_hash, (me * 64 + to) as u64),
                hash_bytes(7, self.ths[me].what.as_bytes()),
            );
            self.cur = to;
            POS = self.ths[to].pos;
            self.hang_at = POS + HANG;
            if self.ex.trace {
                let l = format!("[{:>6}] switch {} -> {}", self.steps, me, to);
                self.trace.push(l);
            }
            self.new_edge_budget();
            self.set_trigger();
            let w: *const AtomicU32 = &*self.ths[to].go;
            (*w).store(1, Ordering::SeqCst);
            sys::futex_wake(w as *const u32);
            if !reap {
                wait_go(me);
            }
        }
    }
}
const HANG: u64 = 3_000_000;

fn wait_go(me: usize) {
    let w: *const AtomicU32 = &*g().ths[me].go;
    unsafe {
        while (*w).load(Ordering::SeqCst) == 0 {
            sys::futex_wait(w as *const u32, 0);
        }
        (*w).store(0, Ordering::SeqCst);
    }
    // The previous baton holder may have been exiting: wait for its real end.
    if let Some((t, real_id)) = g().reap.take() {
        unsafe { (real().join)(real_id, std::ptr::null_mut()) };
        g().ths[t].st = St::Done;
        wake(KEY_JOIN | t as u64, u32::MAX, usize::MAX);
        // Edges its destructors executed do not count as ours.
        unsafe { POS = g().ths[me].pos };
        g().set_trigger();
    }
}

pub fn tid() -> u32 {
    TID.with(|t| t.get())
}
pub fn exiting() -> bool {
    EXITING.with(|t| t.get())
}

/// A synchronisation point: log it, let time pass, maybe run someone else.
pub fn point(what: &'static str, obj: u64) {
    if !active() || exiting() {
        return;
    }
    let s = g();
    tick(s, what, obj);
    let pos_dev = s.replay_dev();
    if let Some(to) = pos_dev {
        let to = to as usize;
        if to < s.ths.len() && to != s.cur && s.ths[to].st == St::Run {
            let d = Dev {
                tid: s.cur as u32,
                pos: unsafe { POS },
                to: to as u32,
            };
            s.devs.push(d);
            s.switch_to(to, false);
        } else {
            s.set_trigger();
        }
        return;
    }
    if let Sched::Random { p_sync, .. } = s.ex.sched {
        let go = s.rng.below(1000) < p_sync as u64;
        let starving = s.starved(s.cur);
        if go || starving {
            preempt(s);
        }
    }
    s.set_trigger();
}

fn tick(s: &mut Sim, what: &'static str, obj: u64) {
    unsafe {
        POS += 1;
        s.hang_at = POS + HANG;
    }
    s.steps += 1;
    s.now += 1000;
    s.ths[s.cur].what = what;
    s.log_hash = mix(
        mix(s.log_hash, s.cur as u64),
        hash_bytes(obj, what.as_bytes()),
    );
    if s.ex.trace {
        let l = format!("[{:>6}] t{} {} {}", s.steps, s.cur, what, obj);
        s.trace.push(l);
    }
    if s.steps > s.ex.max_steps {
        finish(Status::StepLimit);
    }
    s.check_timers();
}

fn preempt(s: &mut Sim) {
    let mut c = s.runnable(Some(s.cur));
    let filtered: Vec<usize> = c.iter().copied().filter(|&t| !s.starved(t)).collect();
    if filtered.is_empty() && !s.starved(s.cur) {
        return;
    }
    if !filtered.is_empty() {
        c = filtered;
    }
    if c.is_empty() {
        return;
    }
    let to = c[s.rng.us(c.len())];
    let d = Dev {
        tid: s.cur as u32,
        pos: unsafe { POS },
        to: to as u32,
    };
    s.devs.push(d);
    s.switch_to(to, false);
}

/// Called when the running thread has executed TRIGGER code edges.
pub fn edge_trigger() {
    if !active() || exiting() {
        return;
    }
    let s = g();
    if s.ths[s.cur].actor {
        return;
    }
    if let Some(to) = s.replay_dev() {
        let to = to as usize;
        if to < s.ths.len() && to != s.cur && s.ths[to].st == St::Run {
            s.ths[s.cur].what = "edge";
            let d = Dev {
                tid: s.cur as u32,
                pos: unsafe { POS },
                to: to as u32,
            };
            s.devs.push(d);
            s.switch_to(to, false);
        }
        s.set_trigger();
        return;
    }
    let pos = unsafe { POS };
    if pos >= s.hang_at {
        s.hangs += 1;
        if s.hangs > 120 {
            finish(Status::StepLimit);
        }
        s.hang_at = pos + HANG;
        s.ths[s.cur].what = "hang";
        if let Some(&to) = s.runnable(Some(s.cur)).first() {
            s.switch_to(to, false);
        }
        s.set_trigger();
        return;
    }
    if pos >= s.edge_next {
        s.ths[s.cur].what = "edge";
        s.new_edge_budget();
        preempt(s);
    }
    s.set_trigger();
}

/// Give way to another runnable thread (sched_yield).
pub fn yield_now(what: &'static str) {
    if !active() || exiting() {
        return;
    }
    let s = g();
    tick(s, what, 0);
    let c = s.runnable(Some(s.cur));
    if c.is_empty() {
        // Nobody else can run: let time pass, faster the longer this lasts,
        // so that sleepers wake up.
        s.lone_yields += 1;
        if s.next_timer != NEVER {
            let d = 1000u64 << s.lone_yields.min(20);
            s.now = (s.now + d).min(s.next_timer.max(s.now));
            s.check_timers();
        }
        s.set_trigger();
        return;
    }
    s.lone_yields = 0;
    let to = choose(s, &c);
    s.switch_to(to, false);
}

/// Pick from the candidates in default order, recording a deviation.
fn choose(s: &mut Sim, c: &[usize]) -> usize {
    if let Some(to) = s.replay_dev() {
        if c.contains(&(to as usize)) {
            let d = Dev {
                tid: s.cur as u32,
                pos: unsafe { POS },
                to,
            };
            s.devs.push(d);
            return to as usize;
        }
    }
    let mut to = c[0];
    if matches!(s.ex.sched, Sched::Random { .. }) && c.len() > 1 {
        let f: Vec<usize> = c.iter().copied().filter(|&t| !s.starved(t)).collect();
        let f = if f.is_empty() { c } else { &f[..] };
        to = f[s.rng.us(f.len())];
        if to != c[0] {
            let d = Dev {
                tid: s.cur as u32,
                pos: unsafe { POS },
                to: to as u32,
            };
            s.devs.push(d);
        }
    }
    to
}

fn pick_next(s: &mut Sim) -> usize {
    loop {
        let c = s.runnable(None);
        if !c.is_empty() {
            return choose(s, &c);
        }
        if s.next_timer == NEVER {
            finish(Status::Deadlock);
        }
        s.now = s.now.max(s.next_timer);
        s.check_timers();
    }
}

/// Block the current thread. Returns false if it was woken by its deadline.
pub fn block(what: &'static str, key: u64, bits: u32, deadline: u64) -> bool {
    if exiting() {
        harness_fail(&format!("exiting thread blocks in {what}"));
    }
    let s = g();
    let obj = if key < KEY_JOIN {
        futex_id(s, key)
    } else {
        key & 0xffff
    };
    tick(s, what, obj);
    let me = s.cur;
    s.ths[me].st = St::Wait {
        key,
        bits,
        deadline,
    };
    s.ths[me].woken_by_timeout = false;
    s.next_timer = s.next_timer.min(deadline);
    let to = pick_next(s);
    if to == me {
        s.set_trigger();
    } else {
        s.switch_to(to, false);
    }
    !g().ths[me].woken_by_timeout
}

pub fn futex_id(s: &mut Sim, key: u64) -> u64 {
    let n = s.futex_ids.len() as u64;
    *s.futex_ids.entry(key).or_insert(n)
}

pub fn wake(key: u64, bits: u32, max: usize) -> usize {
    let s = g();
    let mut n = 0;
    let len = s.ths.len();
    // Oldest waiter order is not tracked; wake in cyclic order from the caller.
    for i in 1..=len {
        let t = (s.cur + i) % len;
        if n >= max {
            break;
        }
        if let St::Wait {
            key: k, bits: b, ..
        } = s.ths[t].st
        {
            if k == key && b & bits != 0 {
                s.ths[t].st = St::Run;
                s.ths[t].woken_by_timeout = false;
                n += 1;
            }
        }
    }
    n
}

pub fn sleep_ns(ns: u64) {
    let d = g().now.saturating_add(ns);
    block("sleep", KEY_SLEEP, u32::MAX, d);
}

struct Start {
    tid: usize,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
}
extern "C" fn thread_main(p: *mut u8) -> *mut u8 {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    TID.with(|t| t.set(st.tid as u32));
    wait_go(st.tid);
    let r = (st.f)(st.arg);
    // Hand the baton over; the next thread waits for our real end first, so
    // thread-local destructors still run alone.
    let s = g();
    tick(s, "thread-exit", st.tid as u64);
    EXITING.with(|t| t.set(true));
    s.ths[st.tid].st = St::Done;
    wake(KEY_JOIN | st.tid as u64, u32::MAX, usize::MAX);
    let to = pick_next(s);
    s.reap = Some((st.tid, s.ths[st.tid].real));
    s.switch_to(to, true);
    r
}

pub fn spawn_raw(
    name: &str,
    attr: *const u8,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
) -> Result<usize, i32> {
    let s = g();
    let tid = s.ths.len();
    s.ths.push(Th {
        name: name.to_string(),
        st: St::Run,
        go: Box::new(AtomicU32::new(0)),
        pos: 0,
        real: 0,
        woken_by_timeout: false,
        what: "start",
        actor: false,
    });
    let st = Box::into_raw(Box::new(Start { tid, f, arg }));
    let mut id = 0u64;
    let r = unsafe { (real().create)(&mut id, attr, thread_main, st as *mut u8) };
    if r != 0 {
        harness_fail(&format!("pthread_create: {r}"));
    }
    s.ths[tid].real = id;
    Ok(tid)
}

pub fn spawn_actor(name: &str, f: Box<dyn FnOnce()>) -> usize {
    extern "C" fn run(p: *mut u8) -> *mut u8 {
        let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) };
        f();
        std::ptr::null_mut()
    }
    let t = spawn_raw(
        name,
        std::ptr::null(),
        run,
        Box::into_raw(Box::new(f)) as *mut u8,
    )
    .unwrap();
    g().ths[t].actor = true;
    t
}

pub fn join(t: usize) {
    while g().ths[t].st != St::Done || g().reap.map(|r| r.0) == Some(t) {
        block("join", KEY_JOIN | t as u64, u32::MAX, NEVER);
    }
}

pub fn event(dir: &str, msg: String, text: Option<String>) -> u64 {
    let s = g();
    s.seq += 1;
    s.log_hash = mix(hash_bytes(s.log_hash, msg.as_bytes()), s.seq);
    let e = Event {
        seq: s.seq,
        t: s.now,
        dir: dir.to_string(),
        msg,
        text,
    };
    s.history.push(e);
    s.seq
}

pub fn finish(status: Status) -> ! {
    crate::client::drain();
    let s = g();
    unsafe {
        ACTIVE = false;
        s.ths[s.cur].pos = POS;
    }
    let mut blocked = vec![];
    for (i, t) in s.ths.iter().enumerate() {
        if t.st != St::Done {
            blocked.push(format!(
                "t{} {} {} {:?}",
                i,
                t.name,
                t.what,
                match t.st {
                    St::Wait { key, .. } if key >= KEY_JOIN =>
                        format!("wait {:x}", key & 0xfff_ffff),
                    St::Wait { .. } => "wait futex".to_string(),
                    _ => "run".to_string(),
                }
            ));
        }
    }
    let mut o = Outcome {
        status,
        stdout: Bytes(std::mem::take(&mut s.out)),
        stderr: Bytes(std::mem::take(&mut s.errb)),
        tree: s.vfs.to_tree(),
        ops: std::mem::take(&mut s.ops),
        history: std::mem::take(&mut s.history),
        devs: std::mem::take(&mut s.devs),
        fired: std::mem::take(&mut s.fired),
        stats: Stats {
            steps: s.steps,
            edges: s.ths.iter().map(|t| t.pos).sum(),
            switches: s.switches,
            threads: s.ths.len() as u64,
            sim_ns: s.now - T0,
            sched_hash: s.sched_hash,
            log_hash: s.log_hash,
            unknown: std::mem::take(&mut s.unknown),
        },
        blocked,
        trace: std::mem::take(&mut s.trace),
    };
    let mut v = serde_json::to_vec(&o).unwrap_or_default();
    if v.len() + 8 > SHM_LEN {
        // Only a run that goes on without end leaves this much behind.
        o.status = Status::StepLimit;
        o.ops = vec![];
        o.history = vec![];
        o.trace = vec![];
        o.devs = vec![];
        o.stdout.0.truncate(1 << 16);
        o.stderr.0.truncate(1 << 16);
        v = serde_json::to_vec(&o).unwrap_or_default();
    }
    if v.len() + 8 > SHM_LEN {
        harness_fail("outcome too large");
    }
    unsafe {
        std::ptr::copy_nonoverlapping(v.as_ptr(), s.shm.add(8), v.len());
        (s.shm as *mut u64).write_volatile(v.len() as u64);
    }
    sys::exit_group(0)
}

pub const T0: u64 = 1_000_000_000_000;

/// Child side: become the simulated process. Never returns.
pub fn child(ex: Exec, shm: *mut u8, main: fn()) -> ! {
    let (schedseed, replay) = match &ex.sched {
        Sched::Random { seed, .. } => (*seed, vec![]),
        Sched::Replay(v) => (0, v.clone()),
        Sched::Default => (0, vec![]),
    };
    let mut rep: BTreeMap<u32, Vec<Dev>> = BTreeMap::new();
    for d in replay {
        rep.entry(d.tid).or_default().push(d);
    }
    for v in rep.values_mut() {
        v.sort_by_key(|d| std::cmp::Reverse(d.pos));
    }
    // A program that allocates without end aborts instead of taking the machine's memory.
    sys::limit_memory(6 << 30);
    crate::arena::enter();
    let ex = ex.clone();
    // The process environment.
    let keys: Vec<_> = std::env::vars_os().map(|(k, _)| k).collect();
    unsafe {
        for k in keys {
            std::env::remove_var(k);
        }
        for (k, v) in &ex.env {
            std::env::set_var(k, v);
        }
    }
    crate::hooks::set_args(&ex.args);
    let vfs = Vfs::from_tree(&ex.tree, &ex.cwd, ex.dirseed);
    let lsp = matches!(ex.actor, Actor::Lsp(_));
    let p = ex.pipes.clone();
    let seed = ex.seed;
    let sim = Box::new(Sim {
        ths: vec![],
        cur: 0,
        now: T0,
        steps: 0,
        next_timer: NEVER,
        rng: Rng::new(schedseed),
        rnd: Rng::new(seed),
        edge_next: u64::MAX,
        hang_at: HANG,
        hangs: 0,
        lone_yields: 0,
        replay: rep,
        devs: vec![],
        vfs,
        stdin: Pipe::new(p.stdin_cap, p.chunk, seed ^ 11),
        stdout: Pipe::new(p.stdout_cap, p.chunk, seed ^ 12),
        stdout_is_pipe: lsp,
        out: vec![],
        errb: vec![],
        history: vec![],
        ops: vec![],
        op_count: BTreeMap::new(),
        fault_hits: BTreeMap::new(),
        fired: vec![],
        trace: vec![],
        log_hash: 1,
        sched_hash: 1,
        switches: 0,
        futex_ids: BTreeMap::new(),
        unknown: BTreeMap::new(),
        reap: None,
        shm,
        seq: 0,
        ex,
    });
    unsafe {
        SIM = Box::into_raw(sim);
        (shm as *mut u64).write_volatile(0);
        POS = 0;
        TRIGGER = u64::MAX;
    }
    let s = g();
    // The program's main thread, with the usual 8 MiB stack.
    let mut attr = [0u64; 16];
    unsafe {
        libc::pthread_attr_init(attr.as_mut_ptr() as *mut libc::pthread_attr_t);
        libc::pthread_attr_setstacksize(attr.as_mut_ptr() as *mut libc::pthread_attr_t, 8 << 20);
    }
    extern "C" fn run_main(p: *mut u8) -> *mut u8 {
        let f: fn() = unsafe { std::mem::transmute(p) };
        f();
        finish(Status::Exit(0))
    }
    spawn_raw(
        "main",
        attr.as_ptr() as *const u8,
        run_main,
        main as *mut u8,
    )
    .unwrap();
    match s.ex.actor.clone() {
        Actor::None => {
            s.stdin.closed_w = true;
        }
        Actor::Mutator(_) => {
            s.stdin.closed_w = true;
        }
        Actor::Lsp(script) => {
            crate::client::start(script);
        }
    }
    unsafe {
        ACTIVE = true;
        s.cur = 0;
        s.new_edge_budget();
        s.set_trigger();
        let w: *const AtomicU32 = &*s.ths[0].go;
        (*w).store(1, Ordering::SeqCst);
        sys::futex_wake(w as *const u32);
        let never = AtomicU32::new(0);
        loop {
            sys::futex_wait(&never as *const AtomicU32 as *const u32, 0);
        }
    }
}
