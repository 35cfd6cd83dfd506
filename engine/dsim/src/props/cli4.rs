//! Independence from everything irrelevant: C25, C26, C31.
use super::cli::*;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C25",
            level: "exploration",
            quick: 5000,
            generate: gen25,
            eval: eval25,
            rule: "Projects of every kind (packages, nested configurations, repositories, broken and failing files, expressions nested at random) and command lines of every mode and format are run once as reference and then up to three times with other numbers of threads, schedules, hash seeds and directory orders; standard output, standard error, status and files must be the same, byte for byte (but for the random names of temporary files in error messages).",
            assumptions: &[
                "--with-timing and --log-level, whose output contains times, are left out.",
            ],
        },
        Check {
            id: "C26",
            level: "exploration",
            quick: 6000,
            generate: gen26,
            eval: eval26,
            rule: "The findings and fixes of a whole project are compared with those of runs over a generated subset of its files: single files, several in any order, given twice, by directory and overlapping, relative to another working directory, or below a parent directory with unrelated projects around. For files in both, findings (with multiplicity) and resulting content must be the same; other files must be neither reported nor changed. Package-wide findings are compared for whole packages, with and without other packages. The same package at another place (below other directories, reached by another path, with links that lead back) gives the same findings.",
            assumptions: &[
                "Package-wide rules are compared only when whole packages are selected.",
            ],
        },
        Check {
            id: "C31",
            level: "exploration",
            quick: 8000,
            generate: gen31,
            eval: eval31,
            rule: "While a check or fixing run is going on, the environment changes files to other generated contents, removes, creates and replaces files and directories (also configurations) at generated points of the run. The run must end with a documented status. In JSON reports the findings of each file must be those of one content it had, or an error if it was changed; files that were not touched must be reported and fixed exactly; the status must fit the report. Files must hold contents the environment gave them or their fixes.",
            assumptions: &[
                "The environment replaces files as a whole (a new file under the name), as editors and version control do; a file read by parts while it is written in place has no content of its own.",
                "A fix based on a content that is replaced meanwhile may win over the replacement: there is no lock to prevent it.",
            ],
        },
    ]
}

// -------------------------------------------------------------------- C25
fn gen25(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C25", "check");
    vary(r, &mut sc);
    sc.scheds.clear();
    let mut s = sel(r);
    if r.chance(1, 2) {
        fix_mode(r, &mut s);
    }
    let fs = match r.below(3) {
        0 => {
            project(r, &mut sc, true);
            if r.chance(1, 3) {
                sc.cwd = "/".into();
            }
            vec![]
        }
        _ => {
            let n = r.range(2, 9);
            project_to_fix(r, &mut sc, n, true)
        }
    };
    sc.put("files", &fs);
    if r.chance(1, 4) {
        // Another package beside.
        sc.file(
            "/w/pkg/DESCRIPTION",
            "Package: other\nDepends: R (>= 3.6)\n",
        );
        if r.chance(2, 3) {
            sc.file("/w/pkg/NAMESPACE", format!("export(fn{})\n", r.below(6)));
        }
        for n in ["a.R", "b.R", "c.R"] {
            if r.chance(2, 3) {
                let p = format!("/w/pkg/R/{n}");
                let t = doc_text(r, &p, false, 2);
                sc.file(&p, t);
            }
        }
    }
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    for p in ["/w/sub/jarl.toml", "/w/pkg/jarl.toml", "/w/t/.jarl.toml"] {
        if r.chance(1, 5) {
            let t = if r.chance(1, 6) {
                r.pick(BAD_TOML).to_string()
            } else {
                toml(r)
            };
            sc.file(p, t);
        }
    }
    if r.chance(1, 3) {
        let t = full_tree(&sc);
        let dirty: Vec<String> = t.keys().filter(|_| r.chance(1, 8)).cloned().collect();
        sc.file("/w/.git/standin_index", git_index(&t, "/w", &dirty));
        if r.chance(1, 4) {
            sc.file("/w/sub/.git/standin_index", git_index(&t, "/w/sub", &dirty));
        }
    }
    if r.chance(1, 4) {
        sc.tree.insert("/w/dang.R".into(), Node::link("/nowhere"));
    }
    let mut a = svec(&["check"]);
    a.extend(s.args());
    match r.below(8) {
        0 => a.push("--add-jarl-ignore".into()),
        1 => a.push("--add-jarl-ignore=because".into()),
        2 => a.push("--statistics".into()),
        _ => {}
    }
    if r.chance(1, 2) {
        a.push("--allow-no-vcs".into());
    }
    if r.chance(1, 3) {
        a.push("--allow-dirty".into());
    }
    if r.chance(1, 10) {
        a.push("--no-default-exclude".into());
    }
    if r.chance(1, 4) && (s.toml || s.extend.is_empty()) {
        a.extend(svec(&[
            "--extend-select",
            "unused_function,duplicated_function_definition",
        ]));
    }
    a.extend(svec(&[
        "--output-format",
        *r.pick(&["json", "concise", "full", "github"]),
    ]));
    let t = targets(r, &sc, &fs);
    a.extend(t);
    if r.chance(1, 10) {
        a.push("/w/nope.R".into());
    }
    sc.args = a;
    if r.chance(1, 3) {
        let mut e = sc.cli(&sc.args);
        e.tree = full_tree(&sc);
        let o = cx.reference(e);
        for _ in 0..r.range(1, 3) {
            // Paths fail for good, whoever comes first.
            if let Some(mut f) = fault_at(r, &o.ops, false) {
                if matches!(&f.act, Act::Errno(n) if *n != libc::EINTR) && f.path.starts_with('/') {
                    f.nth = 0;
                    if f.op == "stat" || f.op == "lstat" || f.op == "fstat" {
                        f.op = "stat*".into();
                    }
                    sc.faults.push(f);
                }
            }
        }
    }
    let mut vs = vec![];
    for _ in 0..r.range(1, 3) {
        vs.push((
            *r.pick(&[1u32, 2, 3, 4, 8]),
            r.next() >> 20,
            if r.chance(2, 3) { r.next() >> 20 } else { 0 },
        ));
        sc.scheds.push(sched(r));
    }
    sc.put("Lvariants", &vs);
    sc.shrink = vec!["tree".into(), "lines".into()];
    sc
}
fn no_temp(b: &Bytes) -> String {
    let s = b.str().into_owned();
    let mut out = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find("/.tmp") {
        out.push_str(&rest[..i + 5]);
        rest = &rest[i + 5..];
        let n = rest
            .chars()
            .take(6)
            .take_while(|c| c.is_ascii_alphanumeric())
            .count();
        rest = &rest[n..];
        out.push_str("XXXXXX");
    }
    out.push_str(rest);
    out
}
fn eval25(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let t0 = full_tree(sc);
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    e.faults = sc.faults.clone();
    let mut b = e.clone();
    b.cpus = 1;
    b.seed = 1;
    b.dirseed = 0;
    let b = cx.reference(b);
    if let Some(v) = ended(&b) {
        return Some(v);
    }
    let mut other = false;
    for (cpus, hseed, dirseed) in sc.get::<Vec<(u32, u64, u64)>>("Lvariants")? {
        let mut e = e.clone();
        e.cpus = cpus;
        e.seed = hseed;
        e.dirseed = dirseed;
        let o = cx.run(e);
        if let Some(v) = ended(&o) {
            return Some(v);
        }
        other |= o.stats.threads > 1 && o.stats.sched_hash != b.stats.sched_hash;
        for (n, x, y) in [
            ("stdout", &b.stdout, &o.stdout),
            ("stderr", &b.stderr, &o.stderr),
        ] {
            let (x, y) = (no_temp(x), no_temp(y));
            if x != y {
                let i = x
                    .bytes()
                    .zip(y.bytes())
                    .position(|(a, b)| a != b)
                    .unwrap_or(x.len().min(y.len()));
                let i = i.saturating_sub(40);
                return viol(
                    n,
                    format!(
                        "{n} differs ({cpus} processors, hash seed {hseed}, directory order {dirseed}): {} instead of {}",
                        clip(&String::from_utf8_lossy(&y.as_bytes()[i..]), 400),
                        clip(&String::from_utf8_lossy(&x.as_bytes()[i..]), 400)
                    ),
                );
            }
        }
        if code(&b) != code(&o) {
            return viol(
                "status",
                format!("status {} instead of {}", code(&o), code(&b)),
            );
        }
        if let Some(d) = tree_diff(&b.tree, &o.tree, |p| !is_temp(p)) {
            return viol("files", format!("files differ: {d}"));
        }
    }
    if (b.stdout.0.len() > 60 || tree_diff(&t0, &b.tree, |_| true).is_some()) && other {
        cx.m.probe("same result in another interleaving");
        if !b.fired.is_empty() {
            cx.m.probe("same result with failing files");
        }
    }
    None
}

// -------------------------------------------------------------------- C26
const WIDE: &[&str] = &["unused_function", "duplicated_function_definition"];

/// A package in one place and in another one.
fn gen26moved(r: &mut Rng) -> Scenario {
    let mut sc = Scenario::new("C26", "moved");
    vary(r, &mut sc);
    sc.scheds.push(sched(r));
    let mut at = |r: &mut Rng, rel: &str| {
        let mut t = match rel {
            "DESCRIPTION" => "Package: p\n".to_string(),
            "NAMESPACE" => format!("export(fn{})\n", r.below(6)),
            "jarl.toml" => corr_toml(r),
            x if x.ends_with(".cpp") => format!("int f() {{ return fn{}(1); }}\n", r.below(6)),
            _ => doc_text(r, rel, false, 2),
        };
        if rel.ends_with(".R") {
            t = format!("{}{t}", fun_defs(r, 4));
        }
        sc.file(&format!("/w/pkg/{rel}"), t);
    };
    for rel in ["DESCRIPTION", "NAMESPACE", "jarl.toml", "R/a.R"] {
        at(r, rel);
    }
    for rel in [
        "R/b.R",
        "R/c.R",
        "tests/testthat/test-a.R",
        "tests/testthat/helper.R",
        "tests/b.R",
        "inst/tinytest/t.R",
        "inst/tests/u.R",
        "src/code.cpp",
    ] {
        if r.chance(1, 2) {
            at(r, rel);
        }
    }
    for (l, to) in [
        ("R/l1", "."),
        ("R/l2", ".."),
        ("tests/l3", "."),
        ("tests/l4", "../R"),
        ("tests/l5", ".."),
    ] {
        if r.chance(1, 8) {
            sc.tree.insert(format!("/w/pkg/{l}"), Node::link(to));
            sc.tree.entry("/w/pkg/tests".into()).or_insert(Node::dir());
        }
    }
    let to = r
        .pick(&[
            "/w/src/pkg",
            "/w/tests/pkg",
            "/w/inst/tests/pkg",
            "/w/R/pkg",
            "/v/src/tests/p",
            "/v/a/inst/tinytest/p",
            "/tests",
            "/src/p",
            "/w/pkg2",
            "/w2",
            "/w2/p",
        ])
        .to_string();
    sc.put("to", &to);
    let up = to.rfind('/').unwrap();
    let l = if up > 0 && r.chance(1, 3) {
        to[..up].to_string()
    } else {
        to.clone()
    };
    let cwd2 = r.pick(&["/w", "/", "/v", "/elsewhere", &to]).to_string();
    sc.put("cwd2", &cwd2);
    sc.put("Lsecond", &vec![spell(r, &l, &cwd2)]);
    sc.args = svec(&["check", "--output-format", "json"]);
    sc.shrink = vec!["tree".into(), "lines".into()];
    sc
}
fn eval26moved(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let second: Vec<String> = sc.get("Lsecond")?;
    let (to, cwd2) = (sc.s("to").to_string(), sc.s("cwd2").to_string());
    if second.is_empty() || !sc.tree.contains_key("/w/pkg/DESCRIPTION") {
        return None;
    }
    let mut e = sc.cli(&sc.args);
    let mut f = e.clone();
    e.args.push("/w/pkg".into());
    f.tree = sc
        .tree
        .iter()
        .map(|(p, n)| {
            (
                p.strip_prefix("/w/pkg/")
                    .map(|r| format!("{to}/{r}"))
                    .unwrap_or(p.clone()),
                n.clone(),
            )
        })
        .collect();
    f.tree.insert(cwd2.clone(), Node::dir());
    f.args.extend(second);
    f.cwd = cwd2.clone();
    let (a, b) = (cx.run(e), cx.run(f));
    for o in [&a, &b] {
        if let Some(v) = ended(o) {
            return Some(v);
        }
    }
    let get = |o: &Outcome, cwd: &str| {
        if o.stdout.str().contains("No R files found") {
            Some(Rep::default())
        } else {
            report(o, cwd)
        }
    };
    let (Some(ra), Some(rb)) = (get(&a, "/w"), get(&b, &cwd2)) else {
        return if (get(&a, "/w").is_some()) == get(&b, &cwd2).is_some() {
            None
        } else {
            viol(
                "moved",
                format!("one run fails: {:?} {:?}", a.status, b.status),
            )
        };
    };
    let strip = |r: &Rep, d: &str| -> BTreeMap<String, Vec<(usize, usize, String)>> {
        r.found
            .iter()
            .filter(|x| !x.1.is_empty())
            .map(|(p, v)| {
                (
                    p.strip_prefix(&format!("{d}/")).unwrap_or(p).to_string(),
                    v.clone(),
                )
            })
            .collect()
    };
    let (x, y) = (strip(&ra, "/w/pkg"), strip(&rb, &to));
    if x != y {
        let p = x
            .keys()
            .chain(y.keys())
            .find(|p| x.get(*p) != y.get(*p))
            .unwrap();
        return viol(
            "moved",
            format!(
                "{p} has {:?} in /w/pkg and {:?} in {to} (from {cwd2})",
                x.get(p),
                y.get(p)
            ),
        );
    }
    if x.values().flatten().any(|f| WIDE.contains(&&f.2[..])) {
        cx.m.probe("the same package-wide findings in another place");
    }
    None
}
fn gen26(r: &mut Rng, _cx: &mut Ctx) -> Scenario {
    if r.chance(1, 4) {
        return gen26moved(r);
    }
    let mut sc = Scenario::new("C26", "");
    vary(r, &mut sc);
    sc.scheds.push(sched(r));
    let mut s = sel(r);
    if r.chance(1, 2) {
        fix_mode(r, &mut s);
    }
    let fs = {
        let n = r.range(2, 8);
        project_to_fix(r, &mut sc, n, true)
    };
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    if r.chance(1, 5) {
        sc.file("/w/sub/jarl.toml", toml(r));
    }
    for d in ["/o", "/w/p1", "/w/zz/p2"] {
        if !r.chance(1, 2) {
            continue;
        }
        // Another package.
        sc.file(
            &format!("{d}/DESCRIPTION"),
            *r.pick(&["Package: other\nDepends: R (>= 3.6)\n", "Package: q\n"]),
        );
        if r.chance(2, 3) {
            sc.file(
                &format!("{d}/NAMESPACE"),
                format!("export(fn{})\n", r.below(6)),
            );
        }
        for n in ["a.R", "b.R", "c.R"] {
            if r.chance(2, 3) {
                let p = format!("{d}/R/{n}");
                let t = doc_text(r, &p, false, 2);
                sc.file(&p, t);
            }
        }
        if r.chance(1, 2) {
            let t = if r.chance(2, 3) {
                format!(
                    "[lint]\nextend-select = [\"CORR\"]\n[lint.unused_function]\nthreshold-ignore = {}\n",
                    r.below(4)
                )
            } else {
                toml(r)
            };
            sc.file(&format!("{d}/jarl.toml"), t);
        }
        if r.chance(1, 4) {
            let t = doc_text(r, "x.R", false, 2);
            sc.file(&format!("{d}/tests/testthat/test-x.R"), t);
        }
    }
    sc.put("files", &fs);
    let mut a = svec(&["check", "--allow-no-vcs", "--output-format", "json"]);
    a.extend(s.args());
    if r.chance(1, 10) {
        a.push("--no-default-exclude".into());
    }
    if r.chance(1, 3) && (s.toml || s.extend.is_empty()) {
        a.extend(svec(&[
            "--extend-select",
            "unused_function,duplicated_function_definition",
        ]));
    }
    sc.args = a;
    let t = full_tree(&sc);
    let all: Vec<String> = t
        .iter()
        .filter(|(p, n)| {
            n.kind == Kind::File
                && [".R", ".r", ".Rmd", ".rmd", ".qmd"]
                    .iter()
                    .any(|x| p.ends_with(x))
        })
        .map(|x| x.0.clone())
        .collect();
    let mut dirs: BTreeSet<String> = all
        .iter()
        .flat_map(|p| {
            p.match_indices('/')
                .skip(1)
                .map(|(i, _)| p[..i].to_string())
                .collect::<Vec<_>>()
        })
        .collect();
    dirs.insert("/w".into());
    let dirs: Vec<String> = dirs.into_iter().collect();
    // What the second run is given.
    let mut l: Vec<String> = vec![];
    for _ in 0..r.range(1, 5) {
        match r.below(5) {
            0 => l.push(r.pick(&dirs).clone()),
            1 if !l.is_empty() => {
                let x = r.pick(&l).clone();
                l.push(x);
            }
            _ if !all.is_empty() => l.push(r.pick(&all).clone()),
            _ => {}
        }
    }
    if l.is_empty() {
        l.push("/w".into());
    }
    let cwd2 = r
        .pick(&["/w", "/", "/w/sub", "/o", "/w/p1/R", "/elsewhere"])
        .to_string();
    sc.tree.insert(cwd2.clone(), Node::dir());
    let l: Vec<String> = l.into_iter().map(|p| spell(r, &p, &cwd2)).collect();
    sc.put("Lsecond", &l);
    sc.put("cwd2", &cwd2);
    sc.shrink = vec!["tree".into(), "lines".into()];
    sc
}
/// Some way to write a path.
pub fn spell(r: &mut Rng, p: &str, cwd: &str) -> String {
    let c: Vec<&str> = cwd.split('/').filter(|x| !x.is_empty()).collect();
    let q: Vec<&str> = p.split('/').filter(|x| !x.is_empty()).collect();
    let n = c.iter().zip(&q).take_while(|(a, b)| a == b).count();
    let mut v: Vec<&str> = vec![".."; c.len() - n];
    v.extend(&q[n..]);
    let rel = if v.is_empty() {
        ".".to_string()
    } else {
        v.join("/")
    };
    match r.below(8) {
        0..=2 => p.to_string(),
        3 => format!("./{rel}"),
        4 if q.len() > 1 => format!("/{}/../{}", q[0], q.join("/")),
        5 if p.ends_with(".R") || p.ends_with(".r") => rel,
        5 => format!("{rel}/"),
        _ => rel,
    }
}
fn package_of(t: &Tree, p: &str) -> Option<String> {
    let i = p.rfind('/')?;
    let d = p[..i].strip_suffix("/R")?;
    t.contains_key(&format!("{d}/DESCRIPTION"))
        .then(|| d.to_string())
}
fn eval26(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    if sc.kind == "moved" {
        return eval26moved(sc, cx);
    }
    let t0 = full_tree(sc);
    let second: Vec<String> = sc.get("Lsecond")?;
    let cwd2 = sc.s("cwd2").to_string();
    if second.is_empty() {
        return None;
    }
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    let mut f = e.clone();
    e.args.extend(svec(&["/w", "/o"]));
    f.args.extend(second.iter().cloned());
    f.cwd = cwd2.clone();
    let (a, b) = (cx.run(e), cx.run(f));
    for o in [&a, &b] {
        if let Some(v) = ended(o) {
            return Some(v);
        }
    }
    let given: Vec<String> = second.iter().map(|p| abs(&cwd2, p)).collect();
    let under =
        |p: &str, d: &str| p == d || p.starts_with(&format!("{}/", d.trim_end_matches('/')));
    let covered = |p: &str| given.iter().any(|d| under(p, d));
    // Nothing else is touched.
    if let Some(d) = tree_diff(&t0, &b.tree, |p| !covered(p)) {
        return viol("beyond", format!("a run over {given:?} changed {d}"));
    }
    let (Some(ra), Some(rb)) = (
        report(&a, "/w"),
        if b.stdout.str().contains("No R files found") {
            Some(Rep::default())
        } else {
            report(&b, &cwd2)
        },
    ) else {
        // A configuration problem, of something that is covered by one only.
        return None;
    };
    if let Some(p) = rb
        .found
        .keys()
        .chain(rb.errors.keys())
        .find(|p| !p.is_empty() && !covered(p))
    {
        return viol("beyond", format!("a run over {given:?} reports {p}"));
    }
    // Hidden or excluded files may be named on their own.
    let out = excluded;
    let whole_packages: BTreeSet<String> = t0
        .keys()
        .filter_map(|p| package_of(&t0, p))
        .filter(|d| given.iter().any(|g| under(&format!("{d}/R"), g)))
        .collect();
    let mut common = 0;
    for p in t0.keys().filter(|p| covered(p) && !out(p)) {
        let wide = package_of(&t0, p).is_some_and(|d| whole_packages.contains(&d));
        let pick = |r: &Rep| -> Vec<(usize, usize, String)> {
            r.found
                .get(p)
                .cloned()
                .unwrap_or_default()
                .into_iter()
                .filter(|x| wide || !WIDE.contains(&&x.2[..]))
                .collect()
        };
        let (x, y) = (pick(&ra), pick(&rb));
        if x != y {
            let class = if x.iter().all(|f| y.contains(f)) && y.iter().all(|f| x.contains(f)) {
                "twice"
            } else {
                "findings"
            };
            return viol(
                class,
                format!("{p} has {y:?} in a run over {given:?} instead of {x:?}"),
            );
        }
        if ra.errors.contains_key(p) != rb.errors.contains_key(p) {
            return viol(
                "errors",
                format!(
                    "{p} in a run over {given:?}: {:?} instead of {:?}",
                    rb.errors.get(p),
                    ra.errors.get(p)
                ),
            );
        }
        common += x.len();
    }
    if let Some(d) = tree_diff(&a.tree, &b.tree, |p| covered(p) && !out(p)) {
        return viol(
            "fixes",
            format!("a run over {given:?} leaves other files than one over everything: {d}"),
        );
    }
    if common > 0 {
        cx.m.probe("the same findings in both runs");
    }
    if tree_diff(&t0, &b.tree, |_| true).is_some() {
        cx.m.probe("the same fixes in both runs");
    }
    None
}
/// Skipped when found below a directory.
fn excluded(p: &str) -> bool {
    let name = p.rsplit('/').next().unwrap();
    p.split('/')
        .any(|c| c.starts_with('.') || c == "renv" || c == "revdep")
        || ["cpp11.R", "RcppExports.R", "extendr-wrappers.R"].contains(&name)
        || name.starts_with("import-standalone-")
}

// -------------------------------------------------------------------- C31
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Change {
    wait: u32,
    path: String,
    /// Remove; a directory; a generated content (number in "vers"); a text.
    what: What,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
enum What {
    Remove,
    Dir,
    Version(usize),
    Text(Bytes),
}
fn gen31(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C31", "check");
    vary(r, &mut sc);
    let mut s = sel(r);
    if r.chance(2, 5) {
        fix_mode(r, &mut s);
        sc.kind = "fix".into();
    }
    let mut fs = {
        let n = r.range(2, 8);
        tree_files(r, &mut sc, "/w", n, true)
    };
    many(r, &mut sc, &mut fs, "/w", true);
    fs.retain(|f| f.role != Role::Out || r.chance(1, 4));
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    let mut a = svec(&["check", "--allow-no-vcs"]);
    a.extend(s.args());
    let fmt = *r.pick(&[
        "json",
        "json",
        "json",
        "json",
        "full",
        "concise",
        "statistics",
    ]);
    if fmt == "statistics" {
        a.push("--statistics".into());
    } else {
        a.extend(svec(&["--output-format", fmt]));
    }
    sc.put("fmt", fmt);
    sc.put("files", &fs);
    sc.put("sel", &s);
    let by_file = r.chance(1, 3);
    if by_file && fs.iter().any(|f| f.role != Role::Out) {
        a.extend(
            fs.iter()
                .filter(|f| f.role != Role::Out)
                .map(|f| f.path.clone()),
        );
    } else {
        a.push(if r.chance(1, 2) { "." } else { "/w" }.into());
    }
    sc.args = a;
    let mut e = sc.cli(&sc.args);
    e.tree = full_tree(&sc);
    let o = cx.reference(e);
    let nops = o.ops.len() as u64;
    let mut vers: Vec<PFile> = vec![];
    let mut ch: Vec<Change> = vec![];
    let mut at: Vec<u64> = (0..r.range(1, 6)).map(|_| r.below(nops)).collect();
    at.sort();
    let mut last = 0;
    for t in at {
        let (path, what) = match r.below(12) {
            0..=5 => {
                let p = if r.chance(1, 6) || fs.is_empty() {
                    r.pick(&["/w/new.R", "/w/sub/new.R", "/w/new/x.R"])
                        .to_string()
                } else {
                    r.pick(&fs).path.clone()
                };
                let role = if excluded(&p) {
                    Role::Out
                } else if is_rmd(&p) {
                    if [".Rmd", ".rmd", ".qmd"].iter().any(|x| p.ends_with(x)) {
                        Role::Rmd
                    } else {
                        Role::Out
                    }
                } else if r.chance(1, 6) {
                    Role::Bad
                } else {
                    Role::R
                };
                if r.chance(1, 8) {
                    (
                        p,
                        What::Text(if r.chance(1, 2) {
                            Bytes::default()
                        } else {
                            wild_text(r).into()
                        }),
                    )
                } else {
                    let mut one = vec![];
                    let mut tmp = Scenario::new("", "");
                    add_file(r, &mut tmp, &mut one, &p, role, 5, true);
                    let mut f = one.remove(0);
                    f.blks = format!("LV{:02}", vers.len());
                    sc.put(&f.blks, tmp.get::<Vec<Blk>>("L00").unwrap());
                    vers.push(f);
                    (p, What::Version(vers.len() - 1))
                }
            }
            6..=8 if !fs.is_empty() => (r.pick(&fs).path.clone(), What::Remove),
            9 => (
                r.pick(&["/w/sub", "/w/sub/deep", "/w/t", "/w/new"])
                    .to_string(),
                What::Remove,
            ),
            10 if !fs.is_empty() => (r.pick(&fs).path.clone(), What::Dir),
            _ => match r.below(8) {
                0 => ("/w/jarl.toml".to_string(), What::Text(toml(r).into())),
                1 => ("/w/jarl.toml".into(), What::Remove),
                2 => (
                    "/w/sub/jarl.toml".into(),
                    What::Text(
                        if r.chance(1, 2) {
                            toml(r)
                        } else {
                            r.pick(BAD_TOML).to_string()
                        }
                        .into(),
                    ),
                ),
                3 => (
                    "/w/DESCRIPTION".into(),
                    What::Text("Package: x\nDepends: R (>= 3.5)\n".into()),
                ),
                _ => ("/w/sub".into(), What::Remove),
            },
        };
        ch.push(Change {
            wait: (t - last) as u32,
            path,
            what,
        });
        last = t;
    }
    sc.put("vers", &vers);
    sc.put("Lchanges", &ch);
    sc
}
fn eval31(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s: Sel = sc.get("sel")?;
    let fs = files_of(sc);
    let vers: Vec<PFile> = sc.get("vers")?;
    let ch: Vec<Change> = sc.get("Lchanges")?;
    let t0 = full_tree(sc);
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    let ms = ch
        .iter()
        .map(|c| Mutation {
            wait: c.wait,
            path: c.path.clone(),
            node: match &c.what {
                What::Remove => None,
                What::Dir => Some(Node::dir()),
                What::Version(i) => Some(Node {
                    kind: Kind::File,
                    data: Bytes(vers[*i].text(sc)),
                    mode: vers[*i].mode,
                }),
                What::Text(t) => Some(Node::file(t.clone())),
            },
        })
        .collect();
    e.actor = Actor::Mutator(ms);
    let o = cx.run(e);
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    // Changes that took place.
    let n = o.history.iter().filter(|e| e.dir == "mutate").count();
    let done = &ch[..n.min(ch.len())];
    if !done.is_empty() && done.iter().any(|c| c.wait > 0) {
        cx.m.probe("changed during the run");
    }
    let config = done
        .iter()
        .any(|c| c.path.ends_with(".toml") || c.path.ends_with("DESCRIPTION"));
    let touched = |p: &str| {
        done.iter()
            .any(|c| c.path == p || p.starts_with(&format!("{}/", c.path)))
    };
    // Contents a file had: (text, findings, fixed text).
    type V = (
        Vec<u8>,
        Option<Vec<(usize, usize, String)>>,
        Option<Vec<u8>>,
    );
    let ver = |f: &PFile| -> V {
        let ok = f.role == Role::R || f.role == Role::Rmd;
        let l = if s.fixing() && f.role == Role::R {
            super::cli3::left(f, sc, &s)
        } else {
            f.findings(sc, &s)
        };
        let mut l = l;
        l.sort();
        (f.text(sc), ok.then_some(l), f.fixed(sc, &s).into())
    };
    let mut had: BTreeMap<String, Vec<V>> = BTreeMap::new();
    let mut wild: BTreeSet<String> = BTreeSet::new();
    for f in &fs {
        had.entry(f.path.clone()).or_default().push(ver(f));
    }
    for c in done {
        match &c.what {
            What::Version(i) => had.entry(c.path.clone()).or_default().push(ver(&vers[*i])),
            What::Text(_) => {
                wild.insert(c.path.clone());
            }
            _ => {}
        }
    }
    // Files: as the environment or a fix left them.
    for (p, vs) in &had {
        if wild.contains(p) || config {
            continue;
        }
        match o.tree.get(p) {
            None if touched(p) => {}
            Some(n) if n.kind == Kind::File => {
                let fixes = s.fixing() && vs.iter().any(|v| v.2.as_ref() == Some(&n.data.0));
                if !vs.iter().any(|v| v.0 == n.data.0) && !fixes {
                    return viol(
                        "content",
                        format!(
                            "{p} holds {:?}, none of its contents or their fixes",
                            n.data
                        ),
                    );
                }
            }
            Some(n) if n.kind == Kind::Dir && touched(p) => {}
            x => return viol("gone", format!("{p} is now {x:?}")),
        }
    }
    if let Some((p, n)) = o.tree.iter().find(|(p, n)| {
        n.kind == Kind::File && !t0.contains_key(*p) && !done.iter().any(|c| c.path == **p)
    }) {
        return viol("stray", format!("{p} was left behind: {n:?}"));
    }
    if sc.s("fmt") != "json" {
        return None;
    }
    let text = o.stdout.str().into_owned();
    let gone = fs
        .iter()
        .filter(|f| f.role != Role::Out)
        .all(|f| touched(&f.path));
    if text.contains("No R files found") && (gone || config) {
        return None;
    }
    let Some(rep) = report(&o, &sc.cwd) else {
        if config && code(&o) == 255 && !o.stderr.0.is_empty() {
            return None;
        }
        return viol(
            "report",
            format!(
                "no report: {} {}",
                clip(&text, 300),
                clip(&o.stderr.str(), 300)
            ),
        );
    };
    let want = if !rep.errors.is_empty() {
        255
    } else if rep.n > 0 {
        1
    } else {
        0
    };
    if code(&o) != want {
        return viol(
            "status",
            format!(
                "status {} instead of {want} for {}",
                code(&o),
                clip(&text, 400)
            ),
        );
    }
    if config {
        return None;
    }
    for (p, vs) in &had {
        if wild.contains(p) {
            continue;
        }
        let known = fs.iter().find(|f| f.path == *p);
        let out = excluded(p) || known.is_some_and(|f| f.role == Role::Out);
        let mut got = rep.found.get(p).cloned().unwrap_or_default();
        got.retain(|x| !x.2.ends_with("suppression"));
        let err = rep.errors.get(p).is_some();
        let t = touched(p);
        if err {
            if !t && !vs.iter().any(|v| v.1.is_none()) {
                return viol(
                    "error",
                    format!(
                        "{p} was not changed but has an error: {:?}",
                        rep.errors.get(p)
                    ),
                );
            }
            if !got.is_empty() {
                return viol("both", format!("{p} has findings and an error"));
            }
            continue;
        }
        if out {
            if !got.is_empty() {
                return viol("out", format!("{p} is reported: {got:?}"));
            }
            continue;
        }
        // Removed or created during the run: nothing is said about it.
        if got.is_empty()
            && t
            && (known.is_none()
                || done.iter().any(|c| {
                    (c.what == What::Remove || c.what == What::Dir)
                        && (c.path == *p || p.starts_with(&format!("{}/", c.path)))
                }))
        {
            continue;
        }
        if !vs.iter().any(|v| v.1.as_ref() == Some(&got)) {
            return viol(
                "findings",
                format!(
                    "{p}: {got:?} fits none of its contents: {:?}",
                    vs.iter().map(|v| &v.1).collect::<Vec<_>>()
                ),
            );
        }
        if t {
            cx.m.probe("findings of one content of a changed file");
        }
    }
    if let Some(p) = rep.found.keys().chain(rep.errors.keys()).find(|p| {
        !had.contains_key(*p) && !wild.contains(*p) && !p.is_empty() && !t0.contains_key(*p)
    }) {
        if !touched(p)
            && !done.iter().any(|c| c.path.starts_with(&format!("{p}/")))
            && !fs.iter().any(|f| f.path.starts_with(&format!("{p}/")))
        {
            return viol("unknown", format!("{p} is reported but never was"));
        }
    }
    None
}
