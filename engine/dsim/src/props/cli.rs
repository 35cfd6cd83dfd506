//! Fixing runs under crashes and faults: C20, C21.
use super::lsp3::mutating;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C20",
            level: "exploration",
            quick: 9000,
            generate: gen20,
            eval: eval20,
            rule: "A generated project (R files in all roles, R Markdown, broken files, symbolic links, permissions, packages) and a fixing command line are run once without faults to learn the operations performed; one or two of these points (or the n-th operation overall) then get a kill, a kill in the middle of a write, a power loss, a short write or an error. Every file that was there must afterwards be a file with its old content or with the content of the undisturbed run, and its old permissions; a run that ended by itself leaves no other file behind.",
            assumptions: &[
                "Power loss model: data not synced is old, new, cut short or zeroed; a prefix of the directory operations of the run survives.",
                "A temporary file whose removal itself was made to fail may stay.",
            ],
        },
        Check {
            id: "C21",
            level: "exploration",
            quick: 3500,
            generate: gen21,
            eval: eval21,
            rule: "A project, including expressions nested at random from flagged patterns, is fixed by a sequence of up to five runs that are killed, lose power or see errors at generated points, each starting from the disk the previous one left; then by undisturbed runs until one changes nothing (at most 15). The files must be those of the same sequence without disturbed runs, the last run must not attempt any modification, and every run must end.",
            assumptions: &["Temporary files left by killed runs are not compared."],
        },
    ]
}

/// A project to fix; returns its generated files.
pub fn project_to_fix(r: &mut Rng, sc: &mut Scenario, n: u64, wildly: bool) -> Vec<PFile> {
    let fs = tree_files(r, sc, "/w", n, false);
    if wildly {
        for p in ["/w/w1.R", "/w/sub/w2.R", "/w/R/w3.R"] {
            if r.chance(1, 3) {
                let t = wild_text(r);
                let mode = *r.pick(&[0o644, 0o755, 0o600]);
                sc.tree.insert(
                    p.into(),
                    Node {
                        kind: Kind::File,
                        data: t.into(),
                        mode,
                    },
                );
            }
        }
    }
    if r.chance(1, 5) {
        sc.file("/w/DESCRIPTION", "Package: p\nDepends: R (>= 4.1.0)\n");
        let t = doc_text(r, "/w/R/pk.R", false, 3);
        sc.file("/w/R/pk.R", t);
    }
    fs
}
pub fn fix_args(r: &mut Rng, s: &Sel) -> Vec<String> {
    let mut a = vec!["check".to_string()];
    a.extend(s.args());
    a.push("--allow-no-vcs".into());
    if r.chance(1, 4) {
        a.push("--output-format".into());
        a.push(r.pick(&["json", "concise", "github", "full"]).to_string());
    }
    if r.chance(1, 12) {
        a.push("--statistics".into());
    }
    a
}
pub fn targets(r: &mut Rng, sc: &Scenario, fs: &[PFile]) -> Vec<String> {
    match r.below(5) {
        0 if !fs.is_empty() => {
            let mut v: Vec<String> = fs
                .iter()
                .filter(|_| r.chance(2, 3))
                .map(|f| f.path.clone())
                .collect();
            if v.is_empty() {
                v.push(fs[0].path.clone());
            }
            v
        }
        1 => svec(&["/w"]),
        2 if sc.cwd == "/w" && sc.tree.keys().any(|k| k.starts_with("/w/sub/")) => {
            svec(&["sub", "."])
        }
        _ => {
            if sc.cwd == "/w" {
                svec(&["."])
            } else {
                svec(&["/w"])
            }
        }
    }
}

const ERRS: &[(&str, &[i32])] = &[
    (
        "open",
        &[
            libc::EACCES,
            libc::EMFILE,
            libc::EIO,
            libc::ENOENT,
            libc::ENOMEM,
        ],
    ),
    (
        "openw",
        &[
            libc::EACCES,
            libc::ENOSPC,
            libc::EROFS,
            libc::EMFILE,
            libc::EIO,
            libc::EDQUOT,
        ],
    ),
    ("read", &[libc::EIO, libc::EINTR, libc::EISDIR]),
    (
        "write",
        &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EINTR],
    ),
    ("fsync", &[libc::EIO, libc::ENOSPC, libc::EINTR]),
    (
        "rename",
        &[
            libc::EACCES,
            libc::EIO,
            libc::ENOSPC,
            libc::EXDEV,
            libc::EROFS,
        ],
    ),
    ("unlink", &[libc::EACCES, libc::EIO]),
    ("fchmod", &[libc::EPERM, libc::EIO]),
    ("chmod", &[libc::EPERM, libc::EIO]),
    ("stat", &[libc::EIO, libc::ENOMEM, libc::EOVERFLOW]),
    ("lstat", &[libc::EIO, libc::ENOMEM, libc::EOVERFLOW]),
    ("fstat", &[libc::EIO, libc::ENOMEM]),
    ("close", &[libc::EIO, libc::EINTR]),
    ("realpath", &[libc::EACCES, libc::EIO]),
    ("opendir", &[libc::EACCES, libc::EMFILE, libc::EIO]),
    ("readdir", &[libc::EIO]),
    ("access", &[libc::EACCES]),
];
/// A fault at one of the recorded operations.
pub fn fault_at(r: &mut Rng, ops: &[OpRec], crash: bool) -> Option<Fault> {
    let cand: Vec<&OpRec> = ops.iter().filter(|o| o.op != "thread").collect();
    if cand.is_empty() {
        return None;
    }
    // Mostly where something is written, and around it.
    let hot: Vec<&&OpRec> = cand
        .iter()
        .filter(|o| mutating(o) || o.op == "fsync")
        .collect();
    let o: &OpRec = if !hot.is_empty() && r.chance(2, 3) {
        hot[r.us(hot.len())]
    } else {
        cand[r.us(cand.len())]
    };
    let mut f = Fault {
        op: o.op.clone(),
        path: o.path.clone(),
        nth: o.nth,
        act: Act::Kill,
    };
    if let Some(d) = o.path.rfind("/.tmp") {
        // Names of temporary files are random.
        f.path = format!("{}/.tmp*", &o.path[..d]);
        f.nth = r.range(1, 3) as u32;
    }
    if crash {
        f.act = match r.below(4) {
            0 => Act::PowerLoss(r.next() >> 20),
            1 if o.op == "write" => Act::KillPartial(r.us(60)),
            _ => Act::Kill,
        };
        if r.chance(1, 3) {
            f.op = "*".into();
            f.path = "*".into();
            f.nth = r.range(1, cand.len() as u64 + 3) as u32;
        }
        return Some(f);
    }
    f.act = match o.op.as_str() {
        "write" if r.chance(1, 2) => {
            if r.chance(1, 2) {
                Act::Short(r.us(40))
            } else {
                Act::ShortThen(r.us(40), libc::ENOSPC)
            }
        }
        "read" if r.chance(1, 2) => Act::Short(r.us(20) + 1),
        op => {
            let e = ERRS.iter().find(|e| e.0 == op)?.1;
            Act::Errno(*r.pick(e))
        }
    };
    // Calls that are interrupted for ever are repeated for ever.
    if f.op.ends_with("stat") && f.op != "fstat" {
        // What can't be examined, can't be in any way, all the time.
        f.op = "stat*".into();
        f.path = o.path.clone();
        f.nth = 0;
    }
    if f.act != Act::Errno(libc::EINTR) && r.chance(1, 5) {
        f.nth = 0;
    }
    Some(f)
}

/// Another fault: half of them where the first one led, in what is done about it.
fn second_fault(
    r: &mut Rng,
    cx: &mut Ctx,
    mut e: Exec,
    o: &Outcome,
    first: &[Fault],
) -> Option<Fault> {
    if r.chance(1, 2) {
        e.faults = first.to_vec();
        let o = cx.reference(e);
        if let Some(i) = o.ops.iter().position(|p| p.fault) {
            let crash = r.chance(1, 2);
            return fault_at(r, &o.ops[i + 1..], crash);
        }
    }
    let crash = r.chance(1, 2);
    fault_at(r, &o.ops, crash)
}

fn gen20(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C20", "fix");
    vary(r, &mut sc);
    let mut s = sel(r);
    fix_mode(r, &mut s);
    let fs = {
        let n = r.range(1, 6);
        project_to_fix(r, &mut sc, n, true)
    };
    sc.put("files", &fs);
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    if r.chance(1, 6) {
        let t = if r.chance(1, 2) {
            "/w/a.R"
        } else {
            "/o/linked.R"
        };
        sc.tree.insert("/w/ln.R".into(), Node::link(t));
        if t.starts_with("/o") {
            let t = doc_text(r, "x.R", true, 3);
            sc.file("/o/linked.R", t);
        }
    }
    if r.chance(1, 6) {
        sc.cwd = "/".into();
    }
    let mut a = fix_args(r, &s);
    a.extend(targets(r, &sc, &fs));
    sc.args = a;
    let mut e = sc.cli(&sc.args);
    e.tree = full_tree(&sc);
    let o = cx.reference(e.clone());
    let crash = r.chance(1, 2);
    sc.faults.extend(fault_at(r, &o.ops, crash));
    if r.chance(2, 3) {
        sc.faults.extend(second_fault(r, cx, e, &o, &sc.faults));
    }
    sc.shrink = vec!["tree".into(), "lines".into()];
    sc
}
/// Source files must be as before or as the undisturbed run leaves them.
pub fn whole(t0: &Tree, t1: &Tree, o: &Outcome) -> Option<Viol> {
    for (p, n) in t0 {
        if n.kind == Kind::Dir {
            continue;
        }
        let Some(g) = o.tree.get(p) else {
            return viol("missing", format!("{p} is gone"));
        };
        if g.kind != n.kind {
            return viol("kind", format!("{p} is now a {:?}", g.kind));
        }
        if g.mode != n.mode {
            return viol(
                "mode",
                format!("{p} had permissions {:o}, now {:o}", n.mode, g.mode),
            );
        }
        if g.data != n.data && Some(&g.data) != t1.get(p).map(|n| &n.data) {
            return viol(
                "content",
                format!(
                    "{p} holds {} ; before: {} ; undisturbed: {}",
                    clip(&format!("{:?}", g.data), 300),
                    clip(&format!("{:?}", n.data), 300),
                    clip(&format!("{:?}", t1.get(p).map(|n| &n.data)), 300)
                ),
            );
        }
    }
    let killed = o.status == Status::Killed;
    for (p, n) in &o.tree {
        if n.kind == Kind::Dir || t0.contains_key(p) {
            continue;
        }
        let excused = is_temp(p) && (killed || o.fired.iter().any(|f| f.op == "unlink"));
        if !excused {
            return viol(
                "stray",
                format!(
                    "{p} was left behind by a run that ended with {:?}: {}",
                    o.status,
                    clip(&format!("{n:?}"), 200)
                ),
            );
        }
    }
    None
}
fn eval20(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let t0 = full_tree(sc);
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    let clean = cx.reference(e.clone());
    if let Some(v) = ended(&clean) {
        return Some(v);
    }
    if let Some(v) = whole(&t0, &clean.tree, &clean) {
        return Some(v);
    }
    e.faults = sc.faults.clone();
    let o = cx.run(e);
    if o.status != Status::Killed {
        if let Some(v) = ended(&o) {
            return Some(v);
        }
    }
    if !o.fired.is_empty() && tree_diff(&t0, &clean.tree, |_| true).is_some() {
        cx.m.probe("fault in a run with something to fix");
        if tree_diff(&t0, &o.tree, |p| !is_temp(p)).is_some()
            && tree_diff(&clean.tree, &o.tree, |p| !is_temp(p)).is_some()
        {
            cx.m.probe("some files old, some new after the fault");
        }
    }
    whole(&t0, &clean.tree, &o)
}

// -------------------------------------------------------------------- C21
fn gen21(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C21", "rerun");
    vary(r, &mut sc);
    let mut s = sel(r);
    fix_mode(r, &mut s);
    let fs = {
        let n = r.range(1, 4);
        project_to_fix(r, &mut sc, n, true)
    };
    sc.put("files", &fs);
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    let mut a = fix_args(r, &s);
    a.push("--allow-dirty".into());
    a.extend(targets(r, &sc, &fs));
    sc.args = a;
    let mut e = sc.cli(&sc.args);
    e.tree = full_tree(&sc);
    let o = cx.reference(e.clone());
    let mut runs: Vec<Vec<Fault>> = vec![];
    sc.scheds.clear();
    for _ in 0..r.range(1, 5) {
        let mut fs = vec![];
        let crash = r.chance(1, 2);
        fs.extend(fault_at(r, &o.ops, crash));
        if r.chance(1, 2) {
            fs.extend(second_fault(r, cx, e.clone(), &o, &fs));
        }
        runs.push(fs);
        sc.scheds.push(sched(r));
    }
    sc.put("Lruns", &runs);
    sc.shrink = vec!["tree".into(), "lines".into()];
    sc
}
fn settle(sc: &Scenario, cx: &mut Ctx, mut t: Tree) -> Result<(Tree, u32), Viol> {
    for i in 0..15 {
        let mut e = sc.cli(&sc.args);
        e.tree = t.clone();
        let o = cx.reference(e);
        if let Some(v) = ended(&o) {
            return Err(v);
        }
        if tree_diff(&t, &o.tree, |_| true).is_none() {
            if let Some(p) = o
                .ops
                .iter()
                .find(|p| mutating(p) && !p.path.starts_with("/dev"))
            {
                return Err(Viol {
                    class: "rewrite".into(),
                    msg: format!(
                        "run {i} changed nothing but performed {} on {}",
                        p.op, p.path
                    ),
                });
            }
            return Ok((t, i));
        }
        t = o.tree;
    }
    Err(Viol {
        class: "endless".into(),
        msg: "15 runs in a row changed something".into(),
    })
}
fn eval21(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let t0 = full_tree(sc);
    let runs: Vec<Vec<Fault>> = sc.get("Lruns").unwrap_or_default();
    let (want, _) = match settle(sc, cx, t0.clone()) {
        Ok(x) => x,
        Err(v) => return Some(v),
    };
    let mut t = t0.clone();
    let mut fired = 0;
    for fs in &runs {
        let mut e = sc.cli(&sc.args);
        e.tree = t;
        e.faults = fs.clone();
        let o = cx.run(e);
        fired += o.fired.len();
        if o.status != Status::Killed {
            if let Some(v) = ended(&o) {
                return Some(v);
            }
        }
        t = o.tree;
    }
    let (got, n) = match settle(sc, cx, t) {
        Ok(x) => x,
        Err(v) => return Some(v),
    };
    if fired > 0 && want != t0 {
        cx.m.probe("reached the same files after disturbed runs");
        if n > 0 {
            cx.m.probe("undisturbed runs had something left to do");
        }
    }
    if let Some(d) = tree_diff(&want, &got, |p| !is_temp(p)) {
        return viol(
            "result",
            format!(
                "after interrupted runs and re-runs the files differ from those of undisturbed runs: {d}"
            ),
        );
    }
    None
}
