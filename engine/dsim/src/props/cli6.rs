//! Which configuration governs a file: C55.
use super::cli::*;
use super::cli4::spell;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C55",
        level: "exploration",
        quick: 12000,
        generate: gen55,
        eval: eval55,
        rule: "Trees with configurations (either file name, or both) at any level above, at and below the checked paths, beside them and in the user's configuration directory, each with a selection, exclusions and inclusions of its own, are checked or fixed from several working directories with arguments of every form, under random schedules, thread counts and directory orders, with reads that return few bytes or are interrupted. A model of the documented resolution gives the configuration of every file, whether the file is checked, its findings and its fixed content; the report and the files must be those.",
        assumptions: &[
            "Files given by name that an exclusion or inclusion leaves out are not judged.",
            "Patterns are restricted to those whose meaning is the same in the stand-in of the ignore crate and in the real one.",
        ],
    }]
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Cfg {
    dir: String,
    name: String,
    sel: Sel,
    exclude: Vec<String>,
    include: Vec<String>,
    default_exclude: Option<bool>,
}
impl Cfg {
    fn text(&self) -> String {
        let mut s = format!("[lint]\n{}", self.sel.lint_table());
        if !self.exclude.is_empty() {
            s.push_str(&format!("exclude = {:?}\n", self.exclude));
        }
        if !self.include.is_empty() {
            s.push_str(&format!("include = {:?}\n", self.include));
        }
        if let Some(d) = self.default_exclude {
            s.push_str(&format!("default-exclude = {d}\n"));
        }
        s
    }
}
const USER: &str = "/home/u/.config/jarl";
const DIRS: &[&str] = &[
    "", "/w", "/w/s", "/w/s/t", "/w/s/t/u", "/w/p", "/w/p/q", "/v", "/w/.h", USER,
];
const FILES: &[&str] = &[
    "/w/a.R",
    "/w/b.R",
    "/w/s/a.R",
    "/w/s/b.R",
    "/w/s/t/a.R",
    "/w/s/t/b.r",
    "/w/s/t/u/c.R",
    "/w/p/a.R",
    "/w/p/q/c.R",
    "/w/p/q/b.R",
    "/v/a.R",
    "/w/d.Rmd",
    "/w/s/d.qmd",
    "/w/renv/activate.R",
    "/w/s/renv/x.R",
    "/w/p/cpp11.R",
    "/w/s/t/import-standalone-a.R",
    "/w/.h/a.R",
    "/w/s/t2/a.R",
];
const DEFAULTS: &[&str] = &[
    ".git/",
    "renv/",
    "revdep/",
    "cpp11.R",
    "RcppExports.R",
    "extendr-wrappers.R",
    "import-standalone-*.R",
];

fn gen55(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let _ = cx;
    let mut sc = Scenario::new("C55", "check");
    vary(r, &mut sc);
    let mut g = Sel::default();
    if r.chance(1, 3) {
        fix_mode(r, &mut g);
        sc.kind = "fix".into();
    }
    sc.put("sel", &g);
    let mut fs = vec![];
    // Either a fixed layout, or directories of few names, nested at random.
    let random = r.chance(1, 2);
    let mut dirs: Vec<String> = DIRS.iter().map(|d| d.to_string()).collect();
    let mut names: Vec<String> = FILES.iter().map(|d| d.to_string()).collect();
    let mut k = r.range(2, 9) as usize;
    if random {
        dirs = svec(&["", "/w", "/v", "/w2", USER]);
        for _ in 0..r.range(2, 14) {
            let d = loop {
                let d = r.pick(&dirs).clone();
                if !d.is_empty() && d != USER {
                    break d;
                }
            };
            dirs.push(format!("{d}/{}", r.pick(&["s", "t", "p", "q", "R", "t2"])));
        }
        dirs.sort();
        dirs.dedup();
        names = svec(&["/w/a.R"]);
        for d in dirs.iter().filter(|d| !d.is_empty() && *d != USER) {
            for _ in 0..r.range(0, 2) {
                let n = *r.pick(&[
                    "a.R", "a.R", "b.R", "c.R", "b.r", "d.Rmd", "cpp11.R", "renv/x.R", ".h/a.R",
                ]);
                names.push(format!("{d}/{n}"));
            }
        }
        names.sort();
        names.dedup();
        k = r.range(2, 14) as usize;
    }
    r.shuffle(&mut names);
    for p in names.iter().take(k) {
        let role = if is_rmd(p) { Role::Rmd } else { Role::R };
        add_file(r, &mut sc, &mut fs, p, role, 3, true);
    }
    sc.put("files", &fs);
    let mut cs: Vec<Cfg> = vec![];
    let many = r.chance(1, 4);
    for d in &dirs {
        let d = d.as_str();
        let odds = if d.is_empty() || d == USER {
            (1, 5)
        } else if many {
            (3, 4)
        } else {
            (1, 3)
        };
        if !r.chance(odds.0, odds.1) {
            continue;
        }
        for name in *r.pick(&[
            &["jarl.toml"][..],
            &["jarl.toml"],
            &[".jarl.toml"],
            &["jarl.toml", ".jarl.toml"],
        ]) {
            let mut s = sel(r);
            s.toml = true;
            s.min_r = None;
            if r.chance(1, 3) {
                s.unfixable = vec![SNIPS[r.us(SNIPS.len())].rule.into()];
            }
            let pats: &[&str] = if d == USER {
                &["a.R", "b.R", "c*.R", "q/", "t/"]
            } else {
                &[
                    "a.R", "b.R", "c*.R", "t/", "q/", "s/a.R", "/a.R", "t/*.R", "s/t/", "zzz/",
                ]
            };
            let some = |r: &mut Rng| -> Vec<String> {
                (0..r.range(1, 2))
                    .map(|_| r.pick(pats).to_string())
                    .collect::<BTreeSet<_>>()
                    .into_iter()
                    .collect()
            };
            cs.push(Cfg {
                dir: d.to_string(),
                name: name.to_string(),
                sel: s,
                exclude: if r.chance(1, 3) { some(r) } else { vec![] },
                include: if r.chance(1, 6) {
                    (0..r.range(1, 2))
                        .map(|_| {
                            r.pick(&[
                                "a.R", "*.R", "s/", "b.R", "/a.R", "s/a.R", "**/*.R", "t/*.R",
                                "p/q/", "*.Rmd",
                            ])
                            .to_string()
                        })
                        .collect()
                } else {
                    vec![]
                },
                default_exclude: if r.chance(1, 3) {
                    Some(r.chance(1, 2))
                } else {
                    None
                },
            });
        }
    }
    sc.put("Lcfgs", &cs);
    sc.cwd = r
        .pick(&["/w", "/w", "/w", "/w/s", "/w/s/t", "/", "/w/p", "/e"])
        .to_string();
    if random && r.chance(1, 2) {
        let d = r.pick(&dirs).clone();
        if d != USER && !d.is_empty() {
            sc.cwd = d;
        }
    }
    let gits = if random {
        dirs.clone()
    } else {
        svec(&["/w", "/w/s", "/w/s/t", "/w/p"])
    };
    for d in gits.iter().filter(|d| !d.is_empty() && *d != USER) {
        if r.chance(1, 5) {
            sc.tree.insert(format!("{d}/.git"), Node::dir());
        }
    }
    for d in ["/w/s/t/u", "/w/p/q", "/e", "/w/s/t2"] {
        sc.tree.insert(d.into(), Node::dir());
    }
    for d in dirs.iter().filter(|d| !d.is_empty() && *d != USER) {
        sc.tree.insert(d.clone(), Node::dir());
    }
    let mut l: Vec<String> = vec![];
    for _ in 0..r.range(1, 3) {
        let p = match r.below(4) {
            0 => r.pick(&fs).path.clone(),
            1 => "/w".to_string(),
            2 if random => loop {
                let d = r.pick(&dirs).clone();
                if !d.is_empty() && d != USER {
                    break d;
                }
            },
            _ => r
                .pick(&["/w", "/w/s", "/w/s/t", "/w/p", "/w/p/q", "/v", "/w/s/t2"])
                .to_string(),
        };
        let p = match sc.tree.contains_key(&p) || fs.iter().any(|f| f.path == p) {
            true => p,
            false => "/w".to_string(),
        };
        let cwd = sc.cwd.clone();
        l.push(spell(r, &p, &cwd));
    }
    sc.put("no_defaults", r.chance(1, 8));
    sc.put("Largs", &l);
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let act = if r.chance(1, 3) {
                Act::Errno(libc::EINTR)
            } else {
                Act::Short(r.range(1, 9) as usize)
            };
            let nth = r.range(1, 3) as u32;
            sc.faults.push(Fault {
                op: "read".into(),
                path: if r.chance(1, 2) {
                    "*jarl.toml".into()
                } else {
                    "*".into()
                },
                nth,
                act,
            });
        }
    }
    sc.shrink = vec!["tree".into()];
    sc
}

/// Whether a gitignore-like pattern of the generated forms matches the entry.
fn glob(pat: &str, root: &str, path: &str, dir: bool) -> bool {
    let (pat, only_dir) = match pat.strip_suffix('/') {
        Some(p) => (p, true),
        None => (pat, false),
    };
    if only_dir && !dir {
        return false;
    }
    let name = path.rsplit('/').next().unwrap();
    let star = |p: &str, s: &str| match p.split_once('*') {
        Some((a, b)) => {
            s.len() >= a.len() + b.len()
                && s.starts_with(a)
                && s.ends_with(b)
                && !s[a.len()..s.len() - b.len()].contains('/')
        }
        None => p == s,
    };
    if let Some(rest) = pat.strip_prefix("**/") {
        return star(rest, name);
    }
    if let Some(rest) = pat.strip_prefix('/') {
        return path
            .strip_prefix(&format!("{root}/"))
            .is_some_and(|rel| star(rest, rel));
    }
    if pat.contains('/') {
        return path
            .strip_prefix(&format!("{root}/"))
            .is_some_and(|rel| star(pat, rel));
    }
    star(pat, name)
}
struct Model<'a> {
    no_defaults: bool,
    cfgs: BTreeMap<&'a str, &'a Cfg>,
}
impl<'a> Model<'a> {
    fn new(cs: &'a [Cfg], no_defaults: bool) -> Self {
        let mut cfgs: BTreeMap<&str, &Cfg> = BTreeMap::new();
        for c in cs {
            // The visible name goes first.
            let e = cfgs.entry(&c.dir).or_insert(c);
            if c.name == "jarl.toml" {
                *e = c;
            }
        }
        Model { no_defaults, cfgs }
    }
    /// The configuration for what is directly in `dir`.
    fn governs(&self, dir: &str) -> Option<&'a Cfg> {
        let mut d = dir;
        loop {
            if let Some(c) = self.cfgs.get(d) {
                return Some(c);
            }
            match d.rfind('/') {
                Some(i) => d = &d[..i],
                None => break,
            }
        }
        self.cfgs.get(USER).copied()
    }
    fn excludes(&self, parent: &str, path: &str, dir: bool) -> bool {
        let c = self.governs(parent);
        let defaults = !self.no_defaults && c.is_none_or(|c| c.default_exclude != Some(false));
        c.is_some_and(|c| c.exclude.iter().any(|p| glob(p, &c.dir, path, dir)))
            || defaults && DEFAULTS.iter().any(|p| glob(p, "", path, dir))
    }
    fn includes(&self, path: &str) -> bool {
        let Some(c) = self.governs(&path[..path.rfind('/').unwrap()]) else {
            return true;
        };
        c.include.is_empty()
            || c.include.iter().any(|p| match p.strip_suffix('/') {
                Some(d) => path.starts_with(&format!("{}/{d}/", c.dir)),
                None => glob(p, &c.dir, path, false),
            })
    }
    /// Found by a walk below `root`.
    fn walked(&self, root: &str, path: &str) -> bool {
        let Some(rel) = path.strip_prefix(&format!("{}/", root.trim_end_matches('/'))) else {
            return false;
        };
        let mut at = root.trim_end_matches('/').to_string();
        let n = rel.split('/').count();
        for (i, c) in rel.split('/').enumerate() {
            let next = format!("{at}/{c}");
            if c.starts_with('.') || self.excludes(&at, &next, i + 1 < n) {
                return false;
            }
            at = next;
        }
        self.includes(path)
    }
}

fn eval55(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let g: Sel = sc.get("sel")?;
    let cs: Vec<Cfg> = sc.get("Lcfgs").unwrap_or_default();
    let args: Vec<String> = sc.get("Largs").unwrap_or_default();
    if args.is_empty() {
        return None;
    }
    let fs = files_of(sc);
    let mut t = full_tree(sc);
    for c in &cs {
        t.insert(format!("{}/{}", c.dir, c.name), Node::file(c.text()));
    }
    let no_defaults = sc.get("no_defaults") == Some(true);
    let m = Model::new(&cs, no_defaults);
    let given: Vec<String> = args.iter().map(|a| abs(&sc.cwd, a)).collect();
    if given.iter().any(|p| {
        !t.contains_key(p)
            && !t
                .keys()
                .any(|k| k.starts_with(&format!("{}/", p.trim_end_matches('/'))))
    }) {
        return None;
    }
    let mut a = svec(&[
        "check",
        "--allow-no-vcs",
        "--allow-dirty",
        "--output-format",
        "json",
    ]);
    a.extend(g.args());
    if no_defaults {
        a.push("--no-default-exclude".into());
    }
    a.extend(args.iter().cloned());
    let mut e = sc.cli(&a);
    e.tree = t.clone();
    e.faults = sc.faults.clone();
    let o = cx.run(e);
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    let walked = |f: &PFile| given.iter().any(|d| m.walked(d, &f.path));
    let unjudged = |f: &PFile| {
        let parent = &f.path[..f.path.rfind('/').unwrap()];
        given.contains(&f.path)
            && !walked(f)
            && (m.excludes(parent, &f.path, false)
                || !m.includes(&f.path)
                || hidden_or_excluded_dir(&m, &f.path))
    };
    let none = fs
        .iter()
        .all(|f| unjudged(f) || !given.contains(&f.path) && !walked(f));
    let rep = match report(&o, &sc.cwd) {
        Some(r) => r,
        None if none => Rep::default(),
        None => {
            return viol(
                "report",
                format!(
                    "status {:?}, standard output {:?}, error {:?}",
                    o.status,
                    clip(&o.stdout.str(), 300),
                    clip(&o.stderr.str(), 300)
                ),
            );
        }
    };
    let mut seen: BTreeSet<Option<(&str, &str)>> = BTreeSet::new();
    for f in &fs {
        let parent = &f.path[..f.path.rfind('/').unwrap()];
        if unjudged(f) {
            continue;
        }
        let c = m.governs(parent);
        let s = Sel {
            fix: g.fix,
            unsafe_: g.unsafe_,
            fix_only: g.fix_only,
            ..c.map(|c| c.sel.clone()).unwrap_or_default()
        };
        let on = given.contains(&f.path) || walked(f);
        let want = if on && !g.fixing() {
            f.findings(sc, &s)
        } else {
            vec![]
        };
        let mut want = want;
        want.sort();
        let mut got = rep.found.get(&f.path).cloned().unwrap_or_default();
        // A comment about a disabled rule may be called outdated.
        got.retain(|x| !x.2.ends_with("suppression"));
        let what = || {
            format!(
                "{} is {} and governed by {}",
                f.path,
                if on { "selected" } else { "not selected" },
                c.map(|c| format!("{}/{} ({})", c.dir, c.name, c.text().replace('\n', "; ")))
                    .unwrap_or("no configuration".into())
            )
        };
        if !g.fixing() || !on {
            if got != want {
                return viol(
                    "findings",
                    format!(
                        "{}: reported {got:?} instead of {want:?}; arguments {given:?}; {}",
                        what(),
                        clip(&o.stderr.str(), 200)
                    ),
                );
            }
        }
        let content = if on { f.fixed(sc, &s) } else { f.text(sc) };
        let now = o
            .tree
            .get(&f.path)
            .map(|n| n.data.0.clone())
            .unwrap_or_default();
        if now != content {
            return viol(
                "content",
                format!(
                    "{}: holds {:?} instead of {:?}",
                    what(),
                    clip(&String::from_utf8_lossy(&now), 300),
                    clip(&String::from_utf8_lossy(&content), 300)
                ),
            );
        }
        if on && (!want.is_empty() || content != f.text(sc)) {
            seen.insert(c.map(|c| (&c.dir[..], &c.name[..])));
        }
    }
    if let Some(p) = rep.found.keys().find(|p| !fs.iter().any(|f| &f.path == *p)) {
        return viol(
            "findings",
            format!("findings in {p}, which is none of the files"),
        );
    }
    if !seen.is_empty() {
        cx.m.probe("files governed as documented");
    }
    if seen.len() > 1 {
        cx.m.probe("files under several configurations in one run");
    }
    if seen.contains(&Some((USER, "jarl.toml"))) || seen.contains(&Some((USER, ".jarl.toml"))) {
        cx.m.probe("files under the user's configuration");
    }
    None
}
/// In a directory that a walk from the top would not enter.
fn hidden_or_excluded_dir(m: &Model, path: &str) -> bool {
    let mut at = String::new();
    let n = path.split('/').count();
    for (i, c) in path.split('/').enumerate().skip(1) {
        let next = format!("{at}/{c}");
        if i + 1 < n && (c.starts_with('.') || m.excludes(&at, &next, true)) {
            return true;
        }
        at = next;
    }
    false
}
