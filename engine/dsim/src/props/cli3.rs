//! Failures and exit statuses: C24, C28.
use super::cli::*;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C24",
            level: "exploration",
            quick: 10000,
            generate: gen24,
            eval: eval24,
            rule: "A project is checked or fixed while one to three of its files or directories fail for good: opening, reading, examining, creating or writing the temporary file, moving it, listing; or naturally: invalid UTF-8, syntax errors, dangling links, arguments that do not exist. The same run without the failing files and without faults is the reference: every other file must have the same findings and content, each failing path must be named on standard output or error, the status must be 255, and the failing files must be as they were.",
            assumptions: &[
                "A directory that cannot be listed, cannot be listed by either of the two walks.",
            ],
        },
        Check {
            id: "C28",
            level: "exploration",
            quick: 10000,
            generate: gen28,
            eval: eval28,
            rule: "Mixes of clean, violating, suppressed, fixable and failing files are checked in every output format and mode. Findings left follow from the construction and must be those of the JSON report; the status must be 255 with an error, 1 with findings and 0 otherwise, in every format; every finding must be delivered once in the form of the format. The same run is repeated with standard output or error closed or full after a generated number of bytes: if anything was not delivered, the status must not be 0, and files must be as after the undisturbed run.",
            assumptions: &[
                "Ending with a panic because standard output or error is closed counts as a failure status.",
            ],
        },
    ]
}

// -------------------------------------------------------------------- C24
fn gen24(r: &mut Rng, _cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C24", "");
    vary(r, &mut sc);
    let mut s = sel(r);
    let fixing = r.chance(1, 2);
    if fixing {
        fix_mode(r, &mut s);
    }
    let mut fs = {
        let n = r.range(3, 9);
        tree_files(r, &mut sc, "/w", n, false)
    };
    many(r, &mut sc, &mut fs, "/w", false);
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    if r.chance(1, 5) {
        // Another configuration, whose files are another group.
        let t = Sel {
            toml: true,
            ..Sel::default()
        }
        .lint_table();
        sc.file("/w/sub/jarl.toml", format!("[lint]\n{t}"));
    }
    fs.retain(|f| f.role != Role::Bad || r.chance(1, 2));
    let named: Vec<String> = fs
        .iter()
        .filter(|f| f.role == Role::R || f.role == Role::Rmd)
        .map(|f| f.path.clone())
        .collect();
    let by_file = r.chance(1, 3);
    let mut args: Vec<String> = if by_file {
        fs.iter()
            .filter(|f| f.role != Role::Out)
            .map(|f| f.path.clone())
            .collect()
    } else if r.chance(1, 2) {
        svec(&["."])
    } else {
        svec(&["/w"])
    };
    // Failing path, and the files that thereby fail.
    let mut victims: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for _ in 0..r.range(1, 3) {
        let k = r.below(12);
        if k < 7 && !named.is_empty() {
            let v = r.pick(&named).clone();
            let op = if fixing && r.chance(1, 2) {
                *r.pick(&["openw", "rename", "realpath", "write"])
            } else {
                *r.pick(&["open", "read"])
            };
            let act = Act::Errno(match op {
                "open" => *r.pick(&[
                    libc::EACCES,
                    libc::EIO,
                    libc::ENOENT,
                    libc::EMFILE,
                    libc::ENOMEM,
                    libc::ELOOP,
                ]),
                "read" => *r.pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM]),
                "realpath" => *r.pick(&[libc::EACCES, libc::EIO]),
                "write" => *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]),
                _ => *r.pick(&[
                    libc::EACCES,
                    libc::EIO,
                    libc::ENOSPC,
                    libc::EROFS,
                    libc::EPERM,
                ]),
            });
            if ["open", "read"].contains(&op) {
                sc.faults.push(Fault {
                    op: op.into(),
                    path: v,
                    nth: 0,
                    act,
                });
            } else {
                // Concerns the files that are to be changed; see below.
                let path = if op == "write" || op == "openw" || r.chance(1, 4) {
                    format!("{}/*", &v[..v.rfind('/').unwrap()])
                } else {
                    v
                };
                if op != "realpath" || !path.ends_with('*') {
                    sc.faults.push(Fault {
                        op: op.into(),
                        path,
                        nth: 0,
                        act,
                    });
                }
            }
        } else if k < 9 && !by_file {
            let dirs: BTreeSet<&str> = fs
                .iter()
                .filter(|f| f.role != Role::Out)
                .map(|f| &f.path[..f.path.rfind('/').unwrap()])
                .collect();
            if dirs.is_empty() {
                continue;
            }
            let d = r.pick(&dirs.into_iter().collect::<Vec<_>>()).to_string();
            let op = *r.pick(&["opendir", "opendir", "readdir"]);
            sc.faults.push(Fault {
                op: op.into(),
                path: d.clone(),
                nth: 0,
                act: Act::Errno(*r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOMEM])),
            });
        } else if k < 10 {
            let p = r.pick(&["/w/dang.R", "/w/sub/dang.R"]).to_string();
            sc.tree.insert(p.clone(), Node::link("/nowhere"));
            if by_file {
                args.push(p.clone());
            }
            victims.insert(p.clone(), vec![p]);
        } else if k < 11 {
            let p = r
                .pick(&["/w/nope.R", "/w/no/such/dir", "/none"])
                .to_string();
            args.push(p.clone());
            victims.insert(p.clone(), vec![p]);
        }
    }
    for f in &fs {
        if f.role == Role::Bad {
            victims.insert(f.path.clone(), vec![f.path.clone()]);
        }
    }
    sc.put("files", &fs);
    sc.put("victims", &victims);
    let fmt = *r.pick(&["json", "json", "json", "concise", "full", "github"]);
    let stats = r.chance(1, 12);
    let mut a = svec(&["check", "--allow-no-vcs", "--output-format", fmt]);
    a.extend(s.args());
    if stats {
        a.push("--statistics".into());
    }
    sc.put("fmt", if stats { "statistics" } else { fmt });
    if args.is_empty() {
        args.push("/w".into());
    }
    sc.put("targets", &args);
    sc.kind = if fixing { "fix".into() } else { "check".into() };
    sc.args = a;
    sc
}
fn glob(pat: &str, p: &str) -> bool {
    pat.strip_suffix('*').map_or(pat == p, |d| p.starts_with(d))
}
fn rel(p: &str, cwd: &str) -> String {
    p.strip_prefix(&format!("{cwd}/")).unwrap_or(p).to_string()
}
fn eval24(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let mut victims: BTreeMap<String, Vec<String>> = sc.get("victims")?;
    let targets: Vec<String> = sc.get("targets")?;
    let t0 = full_tree(sc);
    let mut e = sc.cli(&sc.args);
    e.args.extend(targets.iter().cloned());
    let mut clean = e.clone();
    e.tree = t0.clone();
    e.faults = sc.faults.clone();
    let o = cx.run(e);
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    for f in &sc.faults {
        match &f.op[..] {
            "open" | "read" => victims.insert(f.path.clone(), vec![f.path.clone()]),
            "opendir" | "readdir" => {
                let below = t0
                    .keys()
                    .filter(|p| p.starts_with(&format!("{}/", f.path)))
                    .cloned()
                    .collect();
                victims.insert(f.path.clone(), below)
            }
            _ => None,
        };
    }
    // Failing to write concerns every file to be changed there.
    let mut changing = None;
    for f in &sc.faults {
        if ["openw", "write", "rename", "realpath"].contains(&&f.op[..])
            && o.fired
                .iter()
                .any(|x| x.op == f.op && glob(&f.path, &x.path))
        {
            let ch: &BTreeSet<String> = changing.get_or_insert_with(|| {
                let mut e = clean.clone();
                e.tree = t0.clone();
                let o = cx.reference(e);
                o.tree
                    .iter()
                    .filter(|(p, n)| t0.get(*p).is_some_and(|m| m != *n))
                    .map(|x| x.0.clone())
                    .collect()
            });
            for p in ch.iter().filter(|p| glob(&f.path, p)) {
                victims.insert(p.clone(), vec![p.clone()]);
            }
        }
    }
    let gone: BTreeSet<&String> = victims.values().flatten().collect();
    let dirs: Vec<String> = victims.keys().map(|d| format!("{d}/")).collect();
    let failing =
        |p: &str| gone.contains(&p.to_string()) || dirs.iter().any(|d| p.starts_with(d.as_str()));
    // A directory below another one that can't be listed isn't met.
    let met: Vec<&String> = victims
        .keys()
        .filter(|v| !dirs.iter().any(|d| v.starts_with(d.as_str())))
        .collect();
    let met: Vec<&String> = met
        .into_iter()
        .filter(|v| {
            targets.iter().any(|t| {
                let t = abs(&sc.cwd, t);
                **v == t
                    || v.starts_with(&format!("{}/", t.trim_end_matches('/')))
                    || t.starts_with(&format!("{v}/"))
            })
        })
        .collect();
    clean.tree = t0
        .iter()
        .filter(|(p, _)| !failing(p) || p.ends_with("jarl.toml"))
        .map(|(p, n)| (p.clone(), n.clone()))
        .collect();
    clean
        .args
        .retain(|a| !gone.contains(&abs(&sc.cwd, a)) || a == ".");
    let named = clean.args.len() > sc.args.len() + 1;
    let all = format!("{}{}", o.stdout.str(), o.stderr.str());
    let mut silent = None;
    for v in &met {
        // The whole project's root is displayed as it was given.
        if !(all.contains(&rel(v, &sc.cwd)) || **v == sc.cwd && all.contains('.')) {
            let class = if sc.s("fmt") == "github" {
                "github-silent"
            } else {
                "silent"
            };
            silent = viol(
                class,
                format!(
                    "{v} failed but is not mentioned ({}): {}",
                    sc.s("fmt"),
                    clip(&all, 500)
                ),
            );
        }
        if code(&o) != 255 {
            return viol(
                "status",
                format!(
                    "{v} failed but the status is {}: {}",
                    code(&o),
                    clip(&all, 500)
                ),
            );
        }
    }
    if let Some(d) = tree_diff(&t0, &o.tree, |p| failing(p) && !is_temp(p)) {
        return viol("touched", format!("a failing file was changed: {d}"));
    }
    let oc = if named {
        cx.reference(clean)
    } else {
        Outcome {
            stdout: Default::default(),
            tree: clean.tree,
            ..o.clone()
        }
    };
    if named {
        if let Some(v) = ended(&oc) {
            return Some(v);
        }
        if met.is_empty() && (o.stdout != oc.stdout || code(&o) != code(&oc)) {
            return viol(
                "unrelated",
                format!(
                    "nothing that was asked for failed, but {} instead of {}",
                    clip(&all, 300),
                    clip(&oc.stdout.str(), 300)
                ),
            );
        }
    }
    if let Some(d) = tree_diff(&oc.tree, &o.tree, |p| !failing(p) && !is_temp(p)) {
        return viol(
            "others",
            format!("other files differ from a run without {:?}: {d}", met),
        );
    }
    if sc.s("fmt") == "json" {
        let none = named && oc.stdout.str().contains("No R files found");
        let (Some(a), Some(b)) = (
            report(&o, &sc.cwd),
            if none || !named {
                Some(Rep::default())
            } else {
                report(&oc, &sc.cwd)
            },
        ) else {
            return if met.is_empty() {
                silent
            } else {
                viol(
                    "report",
                    format!(
                        "no report: {} / {}",
                        clip(&all, 300),
                        clip(&oc.stdout.str(), 300)
                    ),
                )
            };
        };
        let f = |r: &Rep| -> BTreeMap<String, Vec<(usize, usize, String)>> {
            r.found
                .iter()
                .filter(|x| !failing(x.0))
                .map(|(p, v)| (p.clone(), v.clone()))
                .collect()
        };
        if f(&a) != f(&b) {
            return viol(
                "findings",
                format!("other files have {:?} instead of {:?}", f(&a), f(&b)),
            );
        }
        let errs: BTreeSet<&String> = a
            .errors
            .keys()
            .filter(|p| !failing(p) && !p.is_empty() && !met.contains(p))
            .collect();
        if !errs.is_empty() {
            return viol(
                "error",
                format!("errors for {errs:?}, which did not fail: {:?}", a.errors),
            );
        }
        if !met.is_empty() && (!o.fired.is_empty() || sc.faults.is_empty()) && !f(&b).is_empty() {
            cx.m.probe("others kept their findings");
        }
    } else if !met.is_empty() && !o.fired.is_empty() {
        cx.m.probe("failure reported in another format");
    }
    silent
}

// -------------------------------------------------------------------- C28
fn gen28(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C28", "");
    vary(r, &mut sc);
    let mut s = sel(r);
    if r.chance(1, 3) {
        fix_mode(r, &mut s);
    }
    let few = r.chance(1, 3);
    let mut fs = {
        let n = if few { 2 } else { r.range(1, 8) };
        tree_files(r, &mut sc, "/w", n, true)
    };
    many(r, &mut sc, &mut fs, "/w", true);
    if few {
        // Mostly clean ones.
        for f in &mut fs {
            let mut b = f.bs(&sc);
            b.retain(|b| b.supp.is_none() && b.pieces.iter().all(|p| p.snip.is_none()));
            sc.put(&f.blks.clone(), b);
        }
    }
    fs.retain(|f| f.role != Role::Bad || r.chance(1, 2));
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    sc.put("files", &fs);
    sc.put("sel", &s);
    let fmt = *r.pick(&["concise", "full", "github", "json", "statistics"]);
    sc.put("fmt", fmt);
    let mut a = svec(&["check", "--allow-no-vcs"]);
    a.extend(s.args());
    if r.chance(1, 3) {
        a.push("--with-timing".into());
    }
    if s.fixing() && r.chance(1, 8) {
        // Nobody can allow anything here.
        a.retain(|x| x != "--allow-no-vcs");
    }
    a.push(if r.chance(1, 2) {
        ".".into()
    } else {
        "/w".into()
    });
    sc.args = a;
    if r.chance(1, 2) {
        let mut e = sc.cli(&with_format(&sc.args, fmt));
        e.tree = full_tree(&sc);
        let o = cx.reference(e);
        let n = o.stdout.0.len();
        let k = match r.below(6) {
            0 => 0,
            1 => n.saturating_sub(1),
            2 => n,
            _ => r.us(n + 2),
        };
        match r.below(5) {
            0 | 1 => sc.pipes.close_stdout_after = Some(k),
            2 | 3 => sc.pipes.stdout_full_after = Some(k),
            _ => {
                sc.pipes.close_stderr_after = Some(r.us(o.stderr.0.len() + 2));
                if r.chance(1, 2) {
                    sc.pipes.close_stdout_after = Some(k);
                }
            }
        }
        sc.pipes.chunk = *r.pick(&[0, 0, 1, 7, 100]);
        sc.pipes.stdout_cap = *r.pick(&[65536, 4096, 64]);
        sc.kind = "cut".into();
    } else {
        sc.kind = "whole".into();
    }
    sc
}
fn with_format(a: &[String], fmt: &str) -> Vec<String> {
    let mut a = a.to_vec();
    if fmt == "statistics" {
        a.push("--statistics".into());
    } else {
        a.extend(svec(&["--output-format", fmt]));
    }
    a
}
/// Rules about comments, which the generated suppressions may run into.
fn about_comments(rule: &str) -> bool {
    rule.ends_with("suppression")
}
fn eval28(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s: Sel = sc.get("sel")?;
    let fs = files_of(sc);
    let t0 = full_tree(sc);
    let fmt = sc.s("fmt").to_string();
    let mut e = sc.cli(&with_format(&sc.args, "json"));
    e.tree = t0.clone();
    let j = cx.run(e);
    if let Some(v) = ended(&j) {
        return Some(v);
    }
    let picked: Vec<&PFile> = fs.iter().filter(|f| f.role != Role::Out).collect();
    let gate = s.fixing() && !sc.args.iter().any(|a| a == "--allow-no-vcs");
    let bad: BTreeSet<String> = picked
        .iter()
        .filter(|f| f.role == Role::Bad)
        .map(|f| f.path.clone())
        .collect();
    let mut rep = Rep::default();
    let want = if picked.is_empty() {
        if !j.stdout.str().contains("No R files") {
            return viol(
                "none",
                format!("no files, but {}", clip(&j.stdout.str(), 300)),
            );
        }
        0
    } else {
        let Some(x) = report(&j, &sc.cwd) else {
            return viol(
                "report",
                format!(
                    "no report: {} {}",
                    clip(&j.stdout.str(), 300),
                    clip(&j.stderr.str(), 300)
                ),
            );
        };
        rep = x;
        if gate {
            255
        } else {
            let mut exp: BTreeMap<String, Vec<(usize, usize, String)>> = BTreeMap::new();
            for f in &picked {
                let mut l = if s.fixing() && f.role == Role::R {
                    left(f, sc, &s)
                } else {
                    f.findings(sc, &s)
                };
                l.sort();
                if !l.is_empty() {
                    exp.insert(f.path.clone(), l);
                }
            }
            let mut got = rep.found.clone();
            for v in got.values_mut() {
                v.retain(|x| !about_comments(&x.2));
            }
            got.retain(|_, v| !v.is_empty());
            if got != exp {
                return viol("left", format!("findings {got:?} instead of {exp:?}"));
            }
            if rep.errors.keys().cloned().collect::<BTreeSet<_>>() != bad {
                return viol(
                    "errors",
                    format!("errors {:?} instead of for {bad:?}", rep.errors),
                );
            }
            if !bad.is_empty() {
                255
            } else if rep.n > 0 {
                1
            } else {
                0
            }
        }
    };
    if code(&j) != want {
        return viol(
            "status",
            format!(
                "status {} instead of {want} in json, for {:?}",
                code(&j),
                rep
            ),
        );
    }
    // The same in the other format.
    let args = with_format(&sc.args, &fmt);
    let mut e = sc.cli(&args);
    e.tree = t0.clone();
    let o = cx.reference(e.clone());
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    if code(&o) != want {
        return viol(
            "status",
            format!(
                "status {} instead of {want} in {fmt}: {}",
                code(&o),
                clip(&o.stdout.str(), 400)
            ),
        );
    }
    if o.tree != j.tree {
        return viol(
            "tree",
            format!(
                "{fmt} leaves other files than json: {:?}",
                tree_diff(&j.tree, &o.tree, |_| true)
            ),
        );
    }
    if !picked.is_empty() && fmt != "json" {
        let out = o.stdout.str();
        let mut lines: BTreeMap<String, usize> = BTreeMap::new();
        for d in serde_json::from_str::<serde_json::Value>(&j.stdout.str()).ok()?["diagnostics"]
            .as_array()?
        {
            let (f, rule) = (d["filename"].as_str()?, d["message"]["name"].as_str()?);
            let (row, col) = (
                d["location"]["row"].as_u64()?,
                d["location"]["column"].as_u64()? + 1,
            );
            let l = match fmt.as_str() {
                "concise" => format!("{f} [{row}:{col}] {rule} "),
                "github" => format!(
                    "::warning title=Jarl ({rule}),file={f},line={row},col={col}::{f}:{row}:{col} [{rule}] "
                ),
                "full" => format!("warning: {rule}"),
                _ => rule.to_string(),
            };
            *lines.entry(l).or_insert(0) += 1;
        }
        for (l, n) in &lines {
            let m = match fmt.as_str() {
                "statistics" => out
                    .lines()
                    .find(|x| x.ends_with(&format!("] {l}")))
                    .and_then(|x| x.split_whitespace().next()?.parse().ok())
                    .unwrap_or(0),
                "full" => out.lines().filter(|x| x == l).count(),
                _ => out.lines().filter(|x| x.starts_with(l.as_str())).count(),
            };
            if m != *n {
                return viol(
                    "delivered",
                    format!(
                        "{fmt} shows {m} times {l:?} instead of {n}: {}",
                        clip(&out, 700)
                    ),
                );
            }
        }
    }
    if want != 0 {
        cx.m.probe("failure or error status");
    }
    if sc.kind == "whole" {
        return None;
    }
    e.pipes = sc.pipes.clone();
    let c = cx.run(e);
    match &c.status {
        Status::Exit(101)
            if c.stderr.str().contains("failed printing to std")
                || sc.pipes.close_stderr_after.is_some() => {}
        _ => {
            if let Some(v) = ended(&c) {
                return Some(v);
            }
        }
    }
    if c.tree != j.tree {
        return viol(
            "cut-tree",
            format!(
                "with output cut the files differ: {:?}",
                tree_diff(&j.tree, &c.tree, |_| true)
            ),
        );
    }
    // Timings differ from run to run only in their digits.
    let len = |o: &Outcome| {
        o.stdout
            .str()
            .lines()
            .filter(|l| !l.starts_with("Checked files in"))
            .map(|l| l.len() + 1)
            .sum::<usize>()
    };
    let lost = len(&c) < len(&o);
    if lost {
        cx.m.probe("output cut");
    }
    if lost && code(&c) == 0 {
        return viol(
            "cut-status",
            format!(
                "only {:?} of {:?} was delivered, but the status is 0",
                clip(&c.stdout.str(), 300),
                clip(&o.stdout.str(), 300)
            ),
        );
    }
    if want != 0 && code(&c) == 0 {
        return viol(
            "cut-status",
            format!("status 0 instead of {want} with output cut"),
        );
    }
    if !lost
        && sc.pipes.close_stderr_after.is_none()
        && sc.pipes.close_stdout_after.is_none()
        && sc.pipes.stdout_full_after.is_none()
        && code(&c) != want
    {
        return viol(
            "cut-status",
            format!(
                "everything was delivered but the status is {} instead of {want}",
                code(&c)
            ),
        );
    }
    None
}
/// Findings left in a file after fixing it.
pub fn left(f: &PFile, sc: &Scenario, s: &Sel) -> Vec<(usize, usize, String)> {
    let rmd = is_rmd(&f.path);
    let bs = fix_blks(rmd, &f.bs(sc), |n| s.fixes(n));
    let d = GDoc {
        path: f.path.clone(),
        eol: f.eol.clone(),
        last_eol: f.last_eol,
        rmd,
    };
    let mut out = vec![];
    for (x, j) in render_doc(&d, &bs).1.iter().zip(live(rmd, &bs)) {
        if s.enabled(&SNIPS[j]) {
            out.push((x.start, x.end, x.rule.clone()));
        }
    }
    out
}
