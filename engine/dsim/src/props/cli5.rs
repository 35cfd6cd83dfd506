//! Gates and comments: C27, C29, C30.
use super::cli::*;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C27",
            level: "exploration",
            quick: 10000,
            generate: gen27,
            eval: eval27,
            rule: "Projects with no, one or several repositories (around, nested, beside), each clean, with a modified, untracked or deleted file anywhere, or with an index or directory that cannot be read, are fixed with every combination of the two flags, several configurations (groups of files) and targets. By construction the run must be refused or not: refused runs change nothing, end with the error status and name the reason and the flag; others must fix every file, also those of later groups.",
            assumptions: &[
                "Version control is a stand-in for libgit2 with the same interface: a repository is a directory with .git, its committed state a list of hashes.",
            ],
        },
        Check {
            id: "C29",
            level: "exploration",
            quick: 5000,
            generate: gen29,
            eval: eval29,
            rule: "Suppression comments are added to generated projects (R, R Markdown, indented and inline code, expressions nested at random, existing suppressions, CRLF). Undisturbed, each file must be the old one with nothing but suppression comments (and, for inline code, the line break around them) inserted; a check with the same rules then reports nothing, and adding again changes nothing. With kills, power loss and I/O errors at generated points each file is old or new as a whole, files that could not be updated are named with the error status, and repeating the run reaches the state of the undisturbed one.",
            assumptions: &[
                "Rules about suppression comments themselves cannot be suppressed and are not counted.",
            ],
        },
        Check {
            id: "C30",
            level: "exploration",
            quick: 10000,
            generate: gen30,
            eval: eval30,
            rule: "A fixing or checking run whose configuration somewhere on the way of a selected file (above, nested, hidden name, user directory), DESCRIPTION or option is invalid (syntax, unknown keys or rules, wrong types, bad values, not UTF-8) or cannot be opened, read or examined. The run must fail (255, or 2 for usage), name the file or option, and change nothing, whatever other files and groups there are. The same broken configuration where it does not apply must make no difference.",
            assumptions: &[],
        },
    ]
}

// -------------------------------------------------------------------- C27
fn gen27(r: &mut Rng, _cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C27", "fix");
    vary(r, &mut sc);
    let mut s = sel(r);
    fix_mode(r, &mut s);
    let mut fs: Vec<PFile> = {
        let n = r.range(1, 6);
        tree_files(r, &mut sc, "/w", n, true)
    };
    many(r, &mut sc, &mut fs, "/w", true);
    fs.retain(|f| f.role == Role::R || f.role == Role::Rmd || r.chance(1, 4));
    for (p, n) in [("/w/pk/m.R", 3), ("/o/o.R", 4), ("/w/sub/late.R", 4)] {
        if r.chance(1, n) && !fs.iter().any(|f| f.path == p) {
            add_file(r, &mut sc, &mut fs, p, Role::R, 4, true);
        }
    }
    let t = format!("[lint]\n{}", s.lint_table());
    if s.toml {
        sc.file("/w/jarl.toml", t.clone());
        sc.file("/o/jarl.toml", t.clone());
    }
    // More groups, with the same rules.
    for d in ["/w/sub", "/w/pk", "/w/t"] {
        if r.chance(1, 4) {
            sc.file(&format!("{d}/jarl.toml"), t.clone());
        }
    }
    if r.chance(1, 6) {
        sc.file("/w/pk/DESCRIPTION", "Package: pk\n");
    }
    for p in [
        "/w/data.csv",
        "/w/.hidden/x.bin",
        "/w/sub/notes.txt",
        "/o/readme.md",
    ] {
        if r.chance(1, 3) {
            sc.file(p, "stuff\n");
        }
    }
    sc.put("files", &fs);
    let all = full_tree(&sc);
    let mut faults = vec![];
    let mut dirty: BTreeSet<String> = BTreeSet::new();
    let roots: Vec<&str> = match r.below(8) {
        0 => vec![],
        1..=3 => vec!["/w"],
        4 => vec!["/w", "/w/sub"],
        5 => vec!["/w", "/o"],
        6 => vec!["/w", "/w/pk", "/o"],
        _ => vec!["/w/sub", "/o"],
    };
    // A linked working tree has its repository elsewhere.
    let linked: BTreeSet<&str> = roots.iter().copied().filter(|_| r.chance(1, 6)).collect();
    let gitdir = |root: &str| match linked.contains(root) {
        true => format!("/m/.git/worktrees/{}", root.replace('/', "")),
        false => format!("{root}/.git"),
    };
    if !linked.is_empty() {
        // The main working tree, clean or not.
        sc.file("/m/main.R", "x = 1\n");
        let h = if r.chance(1, 2) { git_hash(b"x = 1\n") } else { 7 };
        sc.file("/m/.git/standin_index", format!("{h:016x}\tmain.R\n"));
    }
    for root in &roots {
        // Nested repositories are not part of the outer one.
        let inner: Vec<&&str> = roots
            .iter()
            .filter(|x| **x != *root && x.starts_with(&format!("{root}/")))
            .collect();
        let mine: Vec<String> = all
            .keys()
            .filter(|p| {
                p.starts_with(&format!("{root}/"))
                    && !inner.iter().any(|i| p.starts_with(&format!("{i}/")))
            })
            .cloned()
            .collect();
        let mut but = vec![];
        let mut ix = String::new();
        let mut head = None;
        if r.chance(2, 5) {
            dirty.insert(root.to_string());
            match r.below(7) {
                // Staged: modified, new or deleted.
                5 | 6 => {
                    head = Some(match (r.below(3), mine.first()) {
                        (0, Some(_)) => {
                            let p = r.pick(&mine).clone();
                            (format!("{:016x}\t{}\n", 77, &p[root.len() + 1..]), vec![p])
                        }
                        (1, Some(_)) => (String::new(), vec![r.pick(&mine).clone()]),
                        _ => (format!("{:016x}\tgone.R\n", 5), vec![]),
                    });
                }
                0 | 1 if !mine.is_empty() => but.push(r.pick(&mine).clone()),
                2 if !mine.is_empty() => {
                    // Modified.
                    let p = r.pick(&mine).clone();
                    ix = format!("{:016x}\t{}\n", 12345, &p[root.len() + 1..]);
                    but.push(p);
                }
                3 => ix = format!("{:016x}\tgone.R\n", 1),
                _ => {
                    if r.chance(1, 2) || mine.is_empty() {
                        faults.push(Fault {
                            op: r.pick(&["open", "read"]).to_string(),
                            path: format!("{}/standin_index", gitdir(root)),
                            nth: 0,
                            act: Act::Errno(*r.pick(&[libc::EIO, libc::EACCES])),
                        });
                    } else {
                        let p = r.pick(&mine).clone();
                        ix = format!("{:016x}\t{}\n", 99, &p[root.len() + 1..]);
                        but.push(p);
                    }
                }
            }
        }
        let tree = |but: &[String]| -> Tree {
            all.iter()
                .filter(|(p, _)| mine.contains(p) && !but.contains(p))
                .map(|(p, n)| (p.clone(), n.clone()))
                .collect()
        };
        let g = gitdir(root);
        if linked.contains(root) {
            sc.file(&format!("{root}/.git"), format!("gitdir: {g}\n"));
        }
        sc.file(
            &format!("{g}/standin_index"),
            format!("{}{ix}", git_index(&tree(&but), root, &[])),
        );
        if let Some((more, but)) = head {
            sc.file(
                &format!("{g}/standin_head"),
                format!("{}{more}", git_index(&tree(&but), root, &[])),
            );
        }
    }
    // An inner repository shows up as an untracked directory of the outer
    // one unless ignored there.
    for root in &roots {
        let inner: Vec<String> = roots
            .iter()
            .filter(|x| x.starts_with(&format!("{root}/")))
            .map(|x| format!("{}/\n", &x[root.len()..]))
            .collect();
        if !inner.is_empty() {
            let ig = format!("{root}/.gitignore");
            let text: String = inner
                .iter()
                .map(|x| x.trim_start_matches('/').to_string())
                .collect();
            sc.file(&ig, text.clone());
            for f in ["index", "head"] {
                let ix = format!("{}/standin_{f}", gitdir(root));
                let Some(n) = sc.tree.get(&ix) else { continue };
                let mut b = n.data.str().into_owned();
                b.push_str(&format!("{:016x}\t.gitignore\n", git_hash(text.as_bytes())));
                sc.file(&ix, b);
            }
        }
    }
    sc.faults = faults;
    sc.put("roots", &roots);
    sc.put("dirty", &dirty);
    sc.put("sel", &s);
    let (no_vcs, allow_dirty) = *r.pick(&[
        (false, false),
        (false, false),
        (true, false),
        (false, true),
        (true, true),
    ]);
    sc.put("no_vcs", no_vcs);
    sc.put("allow_dirty", allow_dirty);
    let mut a = svec(&["check"]);
    a.extend(s.args());
    if no_vcs {
        a.push("--allow-no-vcs".into());
    }
    if allow_dirty {
        a.push("--allow-dirty".into());
    }
    if r.chance(1, 3) {
        a.extend(svec(&[
            "--output-format",
            *r.pick(&["json", "concise", "full"]),
        ]));
    }
    let cwd = *r.pick(&["/w", "/w", "/", "/w/sub", "/o"]);
    sc.tree.entry(cwd.into()).or_insert(Node::dir());
    sc.cwd = cwd.into();
    let t: Vec<String> = match r.below(5) {
        0 => {
            let v: Vec<String> = fs
                .iter()
                .filter(|f| f.role != Role::Out && r.chance(2, 3))
                .map(|f| f.path.clone())
                .collect();
            if v.is_empty() { svec(&["/w"]) } else { v }
        }
        1 => svec(&["/w", "/o"]),
        2 => svec(&["/w/sub", "/w"]),
        3 if cwd == "/w" => svec(&["."]),
        _ => svec(&["/w"]),
    };
    sc.put("targets", &t);
    a.extend(t);
    sc.args = a;
    sc
}
fn eval27(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s: Sel = sc.get("sel")?;
    let fs = files_of(sc);
    let roots: Vec<String> = sc.get("roots")?;
    let dirty: BTreeSet<String> = sc.get("dirty")?;
    let targets: Vec<String> = sc
        .get::<Vec<String>>("targets")?
        .iter()
        .map(|t| abs(&sc.cwd, t))
        .collect();
    let under =
        |p: &str, d: &str| p == d || p.starts_with(&format!("{}/", d.trim_end_matches('/')));
    let t0 = full_tree(sc);
    // A directory that isn't there is an error of its own.
    if let Some(t) = targets.iter().find(|t| !t0.keys().any(|p| under(p, t))) {
        let _ = t;
        return None;
    }
    let given: Vec<&PFile> = fs
        .iter()
        .filter(|f| f.role != Role::Out && targets.iter().any(|t| under(&f.path, t)))
        .collect();
    let repo = |p: &str| {
        roots
            .iter()
            .filter(|r| under(p, r))
            .max_by_key(|r| r.len())
            .cloned()
    };
    // The outer repository hides what the inner one has from directory walks.
    let ignored = |f: &PFile| {
        let Some(x) = repo(&f.path) else { return false };
        roots.iter().any(|o| *o != x && under(&x, o)) && !targets.iter().any(|t| under(t, &x))
    };
    let given: Vec<&PFile> = given.into_iter().filter(|f| !ignored(f)).collect();
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    e.faults = sc.faults.clone();
    let o = cx.run(e);
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    let outside = given.iter().any(|f| repo(&f.path).is_none()) && !sc.b("no_vcs");
    let cover: BTreeSet<String> = given.iter().filter_map(|f| repo(&f.path)).collect();
    let unclean: Vec<&String> = cover.iter().filter(|r| dirty.contains(*r)).collect();
    let blocked = outside || !unclean.is_empty() && !sc.b("allow_dirty");
    let would: Vec<&&PFile> = given
        .iter()
        .filter(|f| f.fixed(sc, &s) != f.text(sc))
        .collect();
    let all = format!("{}{}", o.stdout.str(), o.stderr.str());
    if blocked {
        if let Some(d) = tree_diff(&t0, &o.tree, |_| true) {
            return viol(
                "modified",
                format!(
                    "files outside version control: {outside}, unclean repositories: {unclean:?}, but {d}"
                ),
            );
        }
        if would.is_empty() {
            return None;
        }
        cx.m.probe("refused to fix");
        if code(&o) != 255 {
            return viol(
                "status",
                format!(
                    "nothing was fixed (outside: {outside}, unclean: {unclean:?}) but the status is {}: {}",
                    code(&o),
                    clip(&all, 400)
                ),
            );
        }
        let why = if outside {
            all.contains("--allow-no-vcs")
        } else if !o.fired.is_empty() {
            !all.is_empty()
        } else {
            all.contains("--allow-dirty")
        };
        if !why {
            return viol(
                "why",
                format!(
                    "nothing was fixed (outside: {outside}, unclean: {unclean:?}) but the output does not say why: {}",
                    clip(&all, 400)
                ),
            );
        }
        return None;
    }
    let mut want = t0.clone();
    for f in &would {
        want.get_mut(&f.path).unwrap().data = Bytes(f.fixed(sc, &s));
    }
    if let Some(d) = tree_diff(&want, &o.tree, |_| true) {
        return viol(
            "fixes",
            format!("clean or allowed, but {d}; {}", clip(&all, 300)),
        );
    }
    let bad = given.iter().any(|f| f.role == Role::Bad);
    if (code(&o) == 255) != bad {
        return viol(
            "status",
            format!(
                "clean or allowed, but the status is {}: {}",
                code(&o),
                clip(&all, 400)
            ),
        );
    }
    if would.iter().any(|f| repo(&f.path).is_some()) {
        cx.m.probe("fixed files of repositories");
    }
    None
}

// -------------------------------------------------------------------- C29
const REASON: &str = "<reason>";
fn gen29(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C29", "add");
    vary(r, &mut sc);
    let s = sel(r);
    let fs = {
        let n = r.range(1, 5);
        project_to_fix(r, &mut sc, n, true)
    };
    sc.put("files", &fs);
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    if r.chance(1, 4) {
        sc.file("/w/in.R", nested(r));
    }
    let reason = *r.pick(&["", "", "because", "was: é # (x)", "TODO", "a b  c"]);
    sc.put("reason", if reason.is_empty() { REASON } else { reason });
    let mut a = svec(&["check"]);
    a.push(if reason.is_empty() {
        "--add-jarl-ignore".into()
    } else {
        format!("--add-jarl-ignore={reason}")
    });
    a.extend(s.args());
    if r.chance(1, 5) && (s.toml || s.extend.is_empty()) {
        a.extend(svec(&[
            "--extend-select",
            "unused_function,duplicated_function_definition",
        ]));
    }
    a.push("--allow-no-vcs".into());
    let t = targets(r, &sc, &fs);
    a.extend(t);
    sc.args = a;
    if r.chance(1, 2) {
        let mut e = sc.cli(&sc.args);
        e.tree = full_tree(&sc);
        let o = cx.reference(e);
        for _ in 0..r.range(1, 2) {
            let crash = r.chance(1, 2);
            if let Some(f) = fault_at(r, &o.ops, crash) {
                // Which files belong to a package is another matter.
                if !(f.op.starts_with("stat") && f.path.ends_with("/DESCRIPTION")
                    || f.op == "realpath" && f.path.contains("/R/"))
                {
                    sc.faults.push(f);
                }
            }
        }
    }
    sc.shrink = vec!["tree".into(), "lines".into()];
    sc
}
/// Code in which violations are inside other constructs.
fn nested(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        let v = var(r);
        let p = |r: &mut Rng| {
            let q = crate::rgen::piece(r, true, true);
            q.render()
        };
        let e = p(r);
        let one = match r.below(12) {
            0 => format!("f <- function(x = {e}) {{\n  y <- {}\n  y\n}}\n", p(r)),
            1 => format!("if (cond) {{\n    {e}\n}} else {{\n\tprint({})\n}}\n", p(r)),
            2 => format!("{v} |>\n  g({e}) |>\n  h()\n"),
            3 => format!("for (i in 1:3) {e}\n"),
            4 => format!("list(a = {e},\n     b = {})\n", p(r)),
            5 => format!("x <- {e}; y <- {}\n", p(r)),
            6 => format!("  # a comment\n  {e} # trailing\n\n"),
            7 => format!("z <- \"a\n  b\"; {e}\n"),
            8 => format!("x <- c({e}, {e})\n"),
            9 => format!("if ({e} && {e}) {{\n  g({e},\n    {e})\n}}\n"),
            10 => format!("{{ {e}; {e} }}\n"),
            _ => format!("while (TRUE) {{ {e}\n break }}\n"),
        };
        s.push_str(&one);
    }
    if r.chance(1, 4) {
        s = s.replace('\n', "\r\n");
    }
    s
}
/// The same comment twice in a row of comments.
fn doubled(t: &str) -> Option<String> {
    let mut seen = BTreeSet::new();
    for l in t.lines().map(str::trim) {
        if !l.starts_with("# jarl-ignore ") {
            seen.clear();
        } else if !seen.insert(l) {
            return Some(l.to_string());
        }
    }
    None
}
/// `new` is `old` with suppression comments inserted; how many.
pub fn only_comments(old: &str, new: &str, reason: &str) -> Option<usize> {
    let (a, b) = (old.as_bytes(), new.as_bytes());
    let is_comment = |l: &str| -> bool {
        let Some(x) = l
            .trim_start_matches([' ', '\t'])
            .strip_prefix("# jarl-ignore ")
        else {
            return false;
        };
        let Some((rule, why)) = x.trim_end_matches(['\r', '\n']).split_once(": ") else {
            return false;
        };
        why == reason
            && !rule.is_empty()
            && rule
                .bytes()
                .all(|c| c.is_ascii_lowercase() || c == b'_' || c.is_ascii_digit())
    };
    let line_end = |j: usize| {
        b[j..]
            .iter()
            .position(|&c| c == b'\n')
            .map_or(b.len(), |k| j + k + 1)
    };
    // Positions in `old` reachable at each position of `new`, with the
    // number of comments inserted so far.
    let mut at: BTreeMap<usize, BTreeMap<usize, usize>> = BTreeMap::new();
    at.entry(0).or_default().insert(0, 0);
    let mut end = None;
    while let Some((j, is)) = at.pop_first() {
        for (i, n) in is {
            if j == b.len() && i == a.len() {
                end = Some(n);
            }
            if j < b.len() && i < a.len() && a[i] == b[j] {
                at.entry(j + 1).or_default().insert(i + 1, n);
            }
            if j >= b.len() {
                continue;
            }
            if j == 0 || b[j - 1] == b'\n' {
                let e = line_end(j);
                if is_comment(&new[j..e]) {
                    at.entry(e).or_default().insert(i, n + 1);
                }
            }
            let nl = if b[j..].starts_with(b"\r\n") {
                2
            } else if b[j] == b'\n' {
                1
            } else {
                0
            };
            if nl > 0 {
                let mut e = j + nl;
                let mut k = 0;
                while e < b.len() && is_comment(&new[e..line_end(e)]) {
                    e = line_end(e);
                    k += 1;
                }
                if k > 0 {
                    let mut w = e;
                    loop {
                        at.entry(w).or_default().insert(i, n + k);
                        if w < b.len() && (b[w] == b' ' || b[w] == b'\t') {
                            w += 1;
                        } else {
                            break;
                        }
                    }
                }
            }
        }
    }
    end
}
fn eval29(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let t0 = full_tree(sc);
    let reason = sc.s("reason");
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    let o1 = cx.run(e.clone());
    if let Some(v) = ended(&o1) {
        return Some(v);
    }
    let t1 = &o1.tree;
    let mut added = 0;
    for (p, n) in &t0 {
        let Some(m) = t1.get(p) else {
            return viol("missing", format!("{p} is gone"));
        };
        if m.kind != n.kind || m.mode != n.mode && n.kind == Kind::File {
            return viol("kind", format!("{p} was {n:?}, is {m:?}"));
        }
        if m.data == n.data {
            continue;
        }
        let (Ok(a), Ok(b)) = (
            std::str::from_utf8(&n.data.0),
            std::str::from_utf8(&m.data.0),
        ) else {
            return viol("bytes", format!("{p} was {:?}, is {:?}", n.data, m.data));
        };
        match only_comments(a, b, reason) {
            Some(k) => {
                if let (Some(d), None) = (doubled(b), doubled(a)) {
                    return viol(
                        "twice",
                        format!("{p}: {d:?} was added twice: {a:?} became {b:?}"),
                    );
                }
                added += k;
            }
            None => {
                return viol(
                    "more",
                    format!("{p}: more than comments was changed: {a:?} became {b:?}"),
                );
            }
        }
    }
    if let Some(p) = t1
        .iter()
        .find(|(p, n)| n.kind != Kind::Dir && !t0.contains_key(*p))
    {
        return viol("stray", format!("{} was left behind", p.0));
    }
    if added > 0 {
        cx.m.probe("comments were added");
    }
    // What is suppressed, is no longer reported.
    let mut c = sc.args.clone();
    c.retain(|a| !a.starts_with("--add-jarl-ignore"));
    c.extend(svec(&["--output-format", "json"]));
    let mut ec = sc.cli(&c);
    ec.tree = t1.clone();
    let oc = cx.reference(ec);
    if let Some(v) = ended(&oc) {
        return Some(v);
    }
    let none = oc.stdout.str().contains("No R files found");
    if !none {
        let Some(rc) = report(&oc, &sc.cwd) else {
            return if code(&oc) == 255 && o1.tree == t0 {
                None
            } else {
                viol(
                    "report",
                    format!(
                        "no report: {} {}",
                        clip(&oc.stdout.str(), 300),
                        clip(&oc.stderr.str(), 300)
                    ),
                )
            };
        };
        let mut ec = sc.cli(&c);
        ec.tree = t0.clone();
        let Some(r0) = report(&cx.reference(ec), &sc.cwd) else {
            return viol("report", "no report before");
        };
        for (p, fs) in &rc.found {
            let left: Vec<_> = fs
                .iter()
                .filter(|f| !f.2.ends_with("suppression"))
                .collect();
            if !left.is_empty() {
                return viol(
                    "left",
                    format!("{p}: still {left:?} in {:?}", t1.get(p).map(|n| &n.data)),
                );
            }
        }
        if let Some(p) = rc.errors.keys().find(|p| !r0.errors.contains_key(*p)) {
            return viol(
                "broken",
                format!("{p} no longer parses: {:?}", rc.errors.get(p)),
            );
        }
        let want = if rc.errors.is_empty() { 0 } else { 255 };
        if code(&o1) != want {
            return viol(
                "status",
                format!(
                    "status {} instead of {want}: {} {}",
                    code(&o1),
                    clip(&o1.stdout.str(), 300),
                    clip(&o1.stderr.str(), 300)
                ),
            );
        }
    }
    // Again.
    let mut e2 = e.clone();
    e2.tree = t1.clone();
    let o2 = cx.reference(e2);
    if let Some(v) = ended(&o2) {
        return Some(v);
    }
    if let Some(d) = tree_diff(t1, &o2.tree, |_| true) {
        return viol("again", format!("adding once more: {d}"));
    }
    if sc.faults.is_empty() {
        return None;
    }
    e.faults = sc.faults.clone();
    let of = cx.run(e.clone());
    if of.status != Status::Killed {
        if let Some(v) = ended(&of) {
            return Some(v);
        }
        let hit = |p: &str| {
            of.fired.iter().any(|f| {
                matches!(f.act, Act::Errno(n) | Act::ShortThen(_, n) if n != libc::EINTR)
                    && (f.path == p
                        || f.path
                            .starts_with(&format!("{}/.tmp", &p[..p.rfind('/').unwrap()])))
            })
        };
        // A directory that could not be read is named instead of its files.
        let unseen = |p: &str| {
            of.fired.iter().any(|f| {
                matches!(f.act, Act::Errno(n) | Act::ShortThen(_, n) if n != libc::EINTR)
                    && p.starts_with(&format!("{}/", f.path))
            })
        };
        for (p, n) in &t0 {
            let (x, y) = (of.tree.get(p).map(|n| &n.data), t1.get(p).map(|n| &n.data));
            if n.kind == Kind::File && x != y && hit(p) && !unseen(p) {
                let all = format!("{}{}", of.stdout.str(), of.stderr.str());
                let rel = p.strip_prefix(&format!("{}/", sc.cwd)).unwrap_or(p);
                if !all.contains(rel) || code(&of) != 255 {
                    return viol(
                        "unsaid",
                        format!(
                            "{p} was not updated after {:?}, status {}, output {}",
                            of.fired,
                            code(&of),
                            clip(&all, 400)
                        ),
                    );
                }
                cx.m.probe("a file could not be updated");
            }
        }
    }
    if let Some(v) = whole(&t0, t1, &of) {
        return Some(v);
    }
    let mut t = of.tree.clone();
    for _ in 0..3 {
        let mut e = sc.cli(&sc.args);
        e.tree = t.clone();
        let o = cx.reference(e);
        if let Some(v) = ended(&o) {
            return Some(v);
        }
        let same = tree_diff(&t, &o.tree, |_| true).is_none();
        t = o.tree;
        if same {
            break;
        }
    }
    if let Some(d) = tree_diff(t1, &t, |p| !is_temp(p)) {
        return viol(
            "resume",
            format!("after an interrupted run and another one: {d}"),
        );
    }
    if !of.fired.is_empty() && added > 0 {
        cx.m.probe("the same comments after a disturbed run");
    }
    None
}

// -------------------------------------------------------------------- C30
const BAD2: &[&str] = &[
    "[lint]\nextend-select = [\"nope\"]\n",
    "[lint]\nignore = [\"nope\"]\n",
    "[lint]\nselect = [1]\n",
    "[lint]\nfixable = \"x\"\n",
    "[lint]\nfixable = [\"nope\"]\n",
    "[lint]\nunfixable = [\"nope\"]\n",
    "[lint]\nselect = [\"any_is_na\"]\nselect = [\"length_test\"]\n",
    "lint = 3\n",
    "[lint.unused_function]\nskipped-functions = [\"(\"]\n",
    "[lint.unused_function]\nthreshold-ignore = -1\n",
    "[lint.unreachable_code]\nno-such-option = 1\n",
    "[lint.undesirable_function]\nfunctions = 3\n",
    "[lint]\ndefault-exclude = \"yes\"\n",
    "[lint]\nexclude = [\"b.R\", \"a[.R\"]\n",
    "[lint]\nexclude = [\"{a,b.R\"]\n",
    "[lint]\nexclude = [\"[z-a].R\", \"x\"]\n",
    "[lint]\ninclude = [\"*.R\", \"**/[\"]\n",
    "[lint.assignment]\noperator = 1\n",
    "[lint.duplicated_arguments]\nskipped-functions = \"a\"\n",
    "[lint]\nassignment = \"->\"\n",
    "[lint]\nexclude = \"a.R\"\n",
    "x",
];
/// Rule lists in which one name among valid ones is misspelled.
fn bad_list(r: &mut Rng) -> String {
    const GOOD: &[&str] = &["any_is_na", "any_duplicated", "length_test", "PERF", "coalesce"];
    const BAD: &[&str] = &["any_is_nah", "Any_is_na", "", "perf", "ANY", "any_is_na,coalesce"];
    const KEYS: &[&str] = &["select", "extend-select", "ignore", "fixable", "unfixable"];
    let wrong = *r.pick(KEYS);
    let mut t = "[lint]\n".to_string();
    for k in KEYS {
        if *k != wrong && !r.chance(1, 4) {
            continue;
        }
        let mut l: Vec<&str> = (0..r.range(0, 3)).map(|_| *r.pick(GOOD)).collect();
        if *k == wrong {
            let at = r.below(l.len() as u64 + 1) as usize;
            l.insert(at, *r.pick(BAD));
        }
        let q: Vec<String> = l.iter().map(|x| format!("{x:?}")).collect();
        t.push_str(&format!("{k} = [{}]\n", q.join(", ")));
    }
    t
}
fn gen30(r: &mut Rng, _cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C30", "");
    vary(r, &mut sc);
    let mut s = sel(r);
    if r.chance(3, 4) {
        fix_mode(r, &mut s);
    }
    let mut fs = {
        let n = r.range(1, 6);
        tree_files(r, &mut sc, "/w", n, true)
    };
    many(r, &mut sc, &mut fs, "/w", true);
    for (p, n) in [("/w/sub/d2.R", 2), ("/w/pk/R/x.R", 2), ("/w/zz.R", 2)] {
        if r.chance(1, n) {
            add_file(r, &mut sc, &mut fs, p, Role::R, 4, true);
        }
    }
    for d in ["/w", "/w/sub"] {
        if r.chance(1, 3) {
            sc.file(
                &format!("{d}/jarl.toml"),
                format!("[lint]\n{}", s.lint_table()),
            );
        }
    }
    sc.put("files", &fs);
    let mut a = svec(&["check"]);
    if !r.chance(1, 6) {
        a.push("--allow-no-vcs".into());
    }
    a.extend(s.args());
    if r.chance(1, 6) {
        a.push("--add-jarl-ignore".into());
    }
    if r.chance(1, 3) {
        a.extend(svec(&[
            "--output-format",
            *r.pick(&["json", "concise", "full", "github"]),
        ]));
    }
    let sel: Vec<&PFile> = fs
        .iter()
        .filter(|f| f.role == Role::R || f.role == Role::Rmd)
        .collect();
    let by_file = r.chance(1, 3) && !sel.is_empty();
    let targets: Vec<String> = if by_file {
        sel.iter().map(|f| f.path.clone()).collect()
    } else {
        svec(&[if r.chance(1, 2) { "." } else { "/w" }])
    };
    // Directories of selected files, and above: where configurations apply.
    let mut where_: BTreeSet<String> = BTreeSet::new();
    if let Some(f) = (!sel.is_empty()).then(|| *r.pick(&sel)) {
        let mut d = &f.path[..];
        while let Some(i) = d.rfind('/') {
            d = &d[..i];
            where_.insert(if d.is_empty() {
                "/".into()
            } else {
                d.to_string()
            });
            // A nearer configuration hides those above.
            if sc.tree.contains_key(&format!("{d}/jarl.toml")) {
                break;
            }
        }
    }
    let dirs: Vec<String> = where_.into_iter().collect();
    let bad = |r: &mut Rng| -> Bytes {
        match r.below(15) {
            0 => Bytes(b"[lint]\nselect = [\"any_is_na\"] # \xff\n".to_vec()),
            12.. => bad_list(r).into(),
            1..=5 => r.pick(BAD_TOML).to_string().into(),
            _ => r.pick(BAD2).to_string().into(),
        }
    };
    let (mut name, kind) = match r.below(16) {
        0..=5 if !dirs.is_empty() => {
            let d = r.pick(&dirs).trim_end_matches('/').to_string();
            let p = if r.chance(3, 4) || sc.tree.contains_key(&format!("{d}/jarl.toml")) {
                format!("{d}/jarl.toml")
            } else {
                format!("{d}/.jarl.toml")
            };
            let b = bad(r);
            sc.file(&p, b);
            (p, "invalid")
        }
        6..=8 if !dirs.is_empty() => {
            let d = r.pick(&dirs).trim_end_matches('/').to_string();
            let p = format!("{d}/jarl.toml");
            sc.file(&p, format!("[lint]\n{}", s.lint_table()));
            let op = *r.pick(&["open", "read", "stat*"]);
            sc.faults.push(Fault {
                op: op.into(),
                path: p.clone(),
                nth: 0,
                act: Act::Errno(if op == "stat*" {
                    libc::EIO
                } else {
                    *r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM])
                }),
            });
            (p, "unreadable")
        }
        9 if !sc.tree.keys().any(|k| k.ends_with("jarl.toml")) && !sel.is_empty() => {
            let p = "/home/u/.config/jarl/jarl.toml".to_string();
            let b = bad(r);
            sc.file(&p, b);
            (p, "invalid")
        }
        10 | 11 if !dirs.is_empty() && s.min_r.is_none() => {
            let d = r.pick(&dirs).trim_end_matches('/').to_string();
            let p = format!("{d}/DESCRIPTION");
            if r.chance(1, 2) {
                sc.file(&p, "Package: p\nDepends: R (>= 4.1)\n");
                let op = *r.pick(&["open", "read", "stat*"]);
                sc.faults.push(Fault {
                    op: op.into(),
                    path: p.clone(),
                    nth: 0,
                    act: Act::Errno(if op == "stat*" {
                        libc::EIO
                    } else {
                        *r.pick(&[libc::EIO, libc::EACCES])
                    }),
                });
                (p, "unreadable")
            } else {
                sc.file(
                    &p,
                    Bytes(b"Package: p\nTitle: \xff\xfe\nDepends: R (>= 4.1)\n".to_vec()),
                );
                (p, "invalid")
            }
        }
        12 => {
            // Where it does not apply.
            let p = r
                .pick(&[
                    "/o/jarl.toml",
                    "/w/.hid2/jarl.toml",
                    "/w/renv/jarl.toml.bak",
                    "/other/DESCRIPTION",
                    "/w/sub/.jarl.toml.swp",
                ])
                .to_string();
            let b = bad(r);
            sc.file(&p, b);
            (p, "elsewhere")
        }
        _ => {
            let (x, y) = *r.pick(&[
                ("--select", "no_such_rule"),
                ("--ignore", "no_such_rule"),
                ("--extend-select", "nope"),
                ("--min-r-version", "x.y"),
                ("--min-r-version", "4"),
                ("--min-r-version", "4.1.2.3"),
                ("--assignment", "->"),
                ("--output-format", "xml"),
                ("--no-such-option", ""),
                ("--select", "any_is_na,nope"),
                ("--add-jarl-ignore=a\nb", ""),
                ("--add-jarl-ignore=a\r", ""),
            ]);
            if x.starts_with("--add") {
                a.retain(|z| z != "--add-jarl-ignore");
            }
            if a.iter().any(|z| z == x) {
                let i = a.iter().position(|z| z == x).unwrap();
                a.remove(i + 1);
                a.remove(i);
            }
            a.push(x.into());
            if !y.is_empty() {
                a.push(y.into());
            }
            (
                if y.contains("nope") {
                    "nope".into()
                } else if x.starts_with("--add") {
                    "--add-jarl-ignore".into()
                } else if y.is_empty() {
                    x.to_string()
                } else {
                    y.to_string()
                },
                "option",
            )
        }
    };
    if kind == "option" && name.contains('.') || name == "4" {
        name = String::new();
    }
    sc.put("name", &name);
    sc.kind = kind.into();
    a.extend(targets);
    sc.args = a;
    sc
}
fn eval30(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let t0 = full_tree(sc);
    let fs = files_of(sc);
    let name = sc.s("name").to_string();
    if sc.kind == "unreadable" && sc.faults.is_empty() {
        return None;
    }
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    e.faults = sc.faults.clone();
    let o = cx.run(e.clone());
    if sc.kind == "elsewhere" {
        if let Some(v) = ended(&o) {
            return Some(v);
        }
        e.tree.remove(&name);
        let c = cx.reference(e);
        if (&c.stdout, &c.stderr, code(&c)) != (&o.stdout, &o.stderr, code(&o))
            || tree_diff(&c.tree, &o.tree, |p| p != name).is_some()
        {
            return viol(
                "elsewhere",
                format!(
                    "{name} makes a difference: {} {} instead of {} {}",
                    clip(&o.stdout.str(), 300),
                    clip(&o.stderr.str(), 300),
                    clip(&c.stdout.str(), 300),
                    clip(&c.stderr.str(), 300)
                ),
            );
        }
        return None;
    }
    if o.status != Status::Exit(2) || sc.kind != "option" {
        if let Some(v) = ended(&o) {
            return Some(v);
        }
    }
    let all = format!("{}{}", o.stdout.str(), o.stderr.str());
    if sc.faults.iter().any(|f| f.op == "stat*") {
        // It could be used all the same.
        e.faults.clear();
        let c = cx.reference(e);
        if (&c.stdout, &c.stderr, code(&c)) == (&o.stdout, &o.stderr, code(&o))
            && tree_diff(&c.tree, &o.tree, |_| true).is_none()
        {
            return None;
        }
        if code(&o) != 255 && (&c.stdout, &c.stderr, code(&c)) != (&o.stdout, &o.stderr, code(&o))
            || tree_diff(&c.tree, &o.tree, |_| true).is_some()
        {
            return viol(
                "ignored",
                format!(
                    "{name} cannot be examined, and is not used: {} {} instead of {} {}",
                    clip(&o.stdout.str(), 300),
                    clip(&o.stderr.str(), 300),
                    clip(&c.stdout.str(), 300),
                    clip(&c.stderr.str(), 300)
                ),
            );
        }
    }
    if let Some(d) = tree_diff(&t0, &o.tree, |_| true) {
        return viol(
            "modified",
            format!(
                "{} is {}, but {d}",
                if name.is_empty() { "an option" } else { &name },
                sc.kind
            ),
        );
    }
    if sc.kind == "unreadable" && o.fired.is_empty() {
        return viol(
            "unread",
            format!("{name} was not even tried: {}", clip(&all, 300)),
        );
    }
    // Options that concern nothing need no complaint.
    if fs.iter().all(|f| f.role == Role::Out) {
        return None;
    }
    if code(&o) != 255 && code(&o) != 2 {
        return viol(
            "status",
            format!(
                "{name} is {}, but the status is {}: {}",
                sc.kind,
                code(&o),
                clip(&all, 300)
            ),
        );
    }
    // Some messages say "jarl.toml" for any configuration.
    let said = if name.ends_with("jarl.toml") && sc.kind == "invalid" {
        "jarl.toml"
    } else {
        &name[name.rfind('/').map_or(0, |i| i + 1)..]
    };
    if !all.contains(said) || all.is_empty() {
        return viol(
            "unnamed",
            format!(
                "{name} is {}, but is not named: {}",
                sc.kind,
                clip(&all, 300)
            ),
        );
    }
    if fs.iter().any(|f| {
        f.role == Role::R
            && f.bs(sc)
                .iter()
                .any(|b| b.pieces.iter().any(|p| p.snip.is_some()))
    }) {
        cx.m.probe("failed with something to report");
    }
    None
}
