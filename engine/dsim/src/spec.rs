//! The description of one simulated execution and of its outcome. Both are
//! plain data: an `Exec` fully determines an `Outcome`.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// File contents: a string when valid UTF-8, else hex.
#[derive(Clone, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);
impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.0))
    }
}
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => s.serialize_str(t),
            Err(_) => {
                let h: String = self.0.iter().map(|b| format!("{b:02x}")).collect();
                [h].serialize(s)
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum E {
            T(String),
            H([String; 1]),
        }
        Ok(match E::deserialize(d)? {
            E::T(t) => Bytes(t.into_bytes()),
            E::H([h]) => Bytes(
                (0..h.len() / 2)
                    .filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                    .collect(),
            ),
        })
    }
}
impl From<&str> for Bytes {
    fn from(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Self {
        Bytes(s.into_bytes())
    }
}
impl Bytes {
    pub fn str(&self) -> std::borrow::Cow<'_, str> {
        String::from_utf8_lossy(&self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Kind {
    File,
    Dir,
    Link,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Node {
    pub kind: Kind,
    #[serde(default)]
    pub data: Bytes,
    pub mode: u32,
}
impl Node {
    pub fn file(s: impl Into<Bytes>) -> Node {
        Node {
            kind: Kind::File,
            data: s.into(),
            mode: 0o644,
        }
    }
    pub fn dir() -> Node {
        Node {
            kind: Kind::Dir,
            data: Bytes::default(),
            mode: 0o755,
        }
    }
    pub fn link(t: &str) -> Node {
        Node {
            kind: Kind::Link,
            data: t.into(),
            mode: 0o777,
        }
    }
}

/// Absolute path -> node. Parent directories are implied.
pub type Tree = BTreeMap<String, Node>;

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Act {
    /// Fail with this errno.
    Errno(i32),
    /// Transfer at most this many bytes.
    Short(usize),
    /// Kill the process before the operation takes effect.
    Kill,
    /// Kill the process when a write has stored this many of its bytes.
    KillPartial(usize),
    /// Like `Kill`, and unsynced data is lost as decided by the seed.
    PowerLoss(u64),
    /// Write this many bytes, then fail with the errno on the next call.
    ShortThen(usize, i32),
    /// The operation takes this many simulated milliseconds.
    Stall(u64),
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub op: String,
    pub path: String,
    pub nth: u32,
    pub act: Act,
}

/// A scheduling decision that differs from the default policy.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Dev {
    pub tid: u32,
    pub pos: u64,
    pub to: u32,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Sched {
    /// Run each thread until it blocks or yields; then the next one.
    Default,
    Random {
        seed: u64,
        /// Probability (per mille) of switching at a synchronisation point.
        p_sync: u32,
        /// Mean number of code edges between preemptions; 0: none.
        edge_mean: u64,
        /// Keep this thread off the processor as long as possible for the
        /// first `starve_steps` steps.
        starve: Option<u32>,
        starve_steps: u64,
    },
    Replay(Vec<Dev>),
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Pipes {
    pub stdin_cap: usize,
    pub stdout_cap: usize,
    /// Largest amount moved by one read/write on the pipes (0: no limit);
    /// the actual size of each transfer is drawn from the seed.
    pub chunk: usize,
    /// Command-line runs: bytes of stdout the reader takes before it closes
    /// its end (None: reads everything).
    pub close_stdout_after: Option<usize>,
    pub close_stderr_after: Option<usize>,
    /// stdout/stderr is a full disk rather than a pipe.
    pub stdout_full_after: Option<usize>,
}
impl Default for Pipes {
    fn default() -> Self {
        Pipes {
            stdin_cap: 65536,
            stdout_cap: 65536,
            chunk: 0,
            close_stdout_after: None,
            close_stderr_after: None,
            stdout_full_after: None,
        }
    }
}

/// One change to the tree made by the environment while a run is going on.
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Mutation {
    /// Number of synchronisation points the mutator lets pass before it acts.
    pub wait: u32,
    pub path: String,
    /// None: remove (recursively); Some: create or replace.
    pub node: Option<Node>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Actor {
    None,
    Mutator(Vec<Mutation>),
    Lsp(crate::client::Script),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Exec {
    pub args: Vec<String>,
    pub cwd: String,
    pub tree: Tree,
    pub env: BTreeMap<String, String>,
    pub cpus: u32,
    /// Source of randomness the program sees (hash seeds) and pipe chunking.
    pub seed: u64,
    /// Order in which directories are listed (0: sorted).
    pub dirseed: u64,
    pub sched: Sched,
    pub faults: Vec<Fault>,
    pub pipes: Pipes,
    pub actor: Actor,
    pub max_steps: u64,
    #[serde(default)]
    pub trace: bool,
}
impl Exec {
    pub fn cli(tree: &Tree, cwd: &str, args: &[String]) -> Exec {
        let mut env = BTreeMap::new();
        env.insert("HOME".to_string(), "/home/u".to_string());
        env.insert("NO_COLOR".to_string(), "1".to_string());
        env.insert("PATH".to_string(), "/usr/bin".to_string());
        Exec {
            args: args.to_vec(),
            cwd: cwd.to_string(),
            tree: tree.clone(),
            env,
            cpus: 1,
            seed: 1,
            dirseed: 0,
            sched: Sched::Default,
            faults: vec![],
            pipes: Pipes::default(),
            actor: Actor::None,
            max_steps: 400_000,
            trace: false,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Status {
    Exit(i32),
    /// Terminated by a signal (a real crash of the program).
    Signal(i32),
    /// Killed by an injected crash or power loss.
    Killed,
    /// No thread can run and no timer is pending.
    Deadlock,
    /// The step limit was reached.
    StepLimit,
    /// The client was done and the process did not end for 120 s.
    Hang,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct OpRec {
    pub op: String,
    pub path: String,
    pub nth: u32,
    /// Result: >= 0 or -errno.
    pub res: i64,
    pub tid: u32,
    pub fault: bool,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Event {
    pub seq: u64,
    pub t: u64,
    /// "send", "recv", "junk" (bytes on stdout that are not a frame), "note".
    pub dir: String,
    pub msg: String,
    /// Client's copy of the document concerned at that moment.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct Stats {
    pub steps: u64,
    pub edges: u64,
    pub switches: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub log_hash: u64,
    pub unknown: BTreeMap<String, u64>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Outcome {
    pub status: Status,
    pub stdout: Bytes,
    pub stderr: Bytes,
    pub tree: Tree,
    pub ops: Vec<OpRec>,
    pub history: Vec<Event>,
    pub devs: Vec<Dev>,
    pub fired: Vec<Fault>,
    pub stats: Stats,
    pub blocked: Vec<String>,
    pub trace: Vec<String>,
}

/// SplitMix64: the only generator used anywhere.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, b.len() as u64)
}
