//! Driver side of one execution: fork, run, collect.
use crate::rt;
use crate::spec::*;
use crate::sys;

pub struct Runner {
    shm: *mut u8,
    pub execs: u64,
    pub steps: u64,
    pub edges: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub main: fn(),
    pub keep: Vec<Exec>,
}

impl Runner {
    pub fn new(main: fn()) -> Runner {
        Runner {
            shm: sys::mmap_shared(rt::SHM_LEN),
            execs: 0,
            steps: 0,
            edges: 0,
            sim_ns: 0,
            switches: 0,
            main,
            keep: vec![],
        }
    }
    pub fn run(&mut self, ex: &Exec) -> Outcome {
        self.run_main(ex, self.main)
    }
    pub fn run_main(&mut self, ex: &Exec, main: fn()) -> Outcome {
        let shm = self.shm;
        unsafe { (shm as *mut u64).write_volatile(0) };
        let pid = sys::fork();
        if pid == 0 {
            rt::child(ex.clone(), shm, main);
        }
        if pid < 0 {
            rt::harness_fail("fork");
        }
        // Wait, with a generous real-time guard against a hung child.
        let t0 = sys::real_now();
        let mut spins = 0u64;
        let mut spinning = false;
        let st = loop {
            if let Some((_, st)) = sys::wait4(pid, true) {
                break st;
            }
            spins += 1;
            // The program computes without reaching any operation: an endless loop.
            if sys::real_now() - t0 > 40_000_000_000 {
                sys::kill(pid, 9);
                sys::wait4(pid, false);
                spinning = true;
                break 9;
            }
            sys::usleep(if spins < 50 { 200 } else { 1000 });
        };
        self.execs += 1;
        let n = unsafe { (shm as *const u64).read_volatile() } as usize;
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        if code == 99 {
            sys::err(&format!(
                "dsim: failing execution: {}\n",
                serde_json::to_string(ex).unwrap_or_default()
            ));
            sys::exit_group(2);
        }
        if n == 0 || sig != 0 {
            return Outcome {
                status: if spinning {
                    Status::Hang
                } else {
                    Status::Signal(if sig != 0 { sig } else { 1000 + code })
                },
                stdout: Bytes::default(),
                stderr: Bytes::default(),
                tree: ex.tree.clone(),
                ops: vec![],
                history: vec![],
                devs: vec![],
                fired: vec![],
                stats: Stats::default(),
                blocked: vec![],
                trace: vec![],
            };
        }
        let b = unsafe { std::slice::from_raw_parts(shm.add(8), n) };
        let o: Outcome = match serde_json::from_slice(b) {
            Ok(o) => o,
            Err(e) => {
                let c = e.column();
                sys::err(&format!(
                    "{:?}\n",
                    String::from_utf8_lossy(&b[c.saturating_sub(300)..(c + 50).min(b.len())])
                ));
                rt::harness_fail(&format!(
                    "outcome: {e}: {}",
                    serde_json::to_string(ex).unwrap_or_default()
                ))
            }
        };
        self.steps += o.stats.steps;
        self.edges += o.stats.edges;
        self.sim_ns += o.stats.sim_ns;
        self.switches += o.stats.switches;
        if o.stderr.str().contains("dsim/src/") {
            rt::harness_fail(&format!("panic in the simulator: {}", o.stderr.str()));
        }
        o
    }
}
