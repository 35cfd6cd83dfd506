//! Generated projects for command-line runs, with findings and fixes known by
//! construction, and reading of the program's reports.
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// Rule selection of a run, from one place.
#[derive(Clone, Default, PartialEq, Debug, Serialize, Deserialize)]
pub struct Sel {
    pub select: Vec<String>,
    pub extend: Vec<String>,
    pub ignore: Vec<String>,
    pub fixable: Option<Vec<String>>,
    pub unfixable: Vec<String>,
    pub toml: bool,
    pub min_r: Option<(u32, u32)>,
    pub fix: bool,
    pub unsafe_: bool,
    pub fix_only: bool,
}
fn known_rules() -> Vec<&'static str> {
    let mut v: Vec<&str> = SNIPS.iter().map(|s| s.rule).collect();
    v.sort();
    v.dedup();
    v
}
fn has_fix(rule: &str) -> bool {
    SNIPS.iter().any(|s| s.rule == rule && s.fix.is_some())
}
pub fn sel(r: &mut Rng) -> Sel {
    let mut s = Sel {
        toml: r.chance(1, 2),
        ..Sel::default()
    };
    let ks = known_rules();
    let some = |r: &mut Rng, n: u64| -> Vec<String> {
        (0..r.range(1, n))
            .map(|_| r.pick(&ks).to_string())
            .collect::<BTreeSet<_>>()
            .into_iter()
            .collect()
    };
    match r.below(6) {
        0 => s.select = some(r, 8),
        1 => s.extend = some(r, 4),
        2 => s.ignore = some(r, 6),
        _ => {}
    }
    if s.toml {
        if r.chance(1, 5) {
            s.fixable = Some(some(r, 6));
        }
        if r.chance(1, 4) {
            s.unfixable = some(r, 6);
        }
        // A rule that both lists name is not fixed.
        if let Some(f) = s.fixable.clone()
            && r.chance(1, 2)
        {
            s.unfixable.push(r.pick(&f).clone());
        }
    }
    if r.chance(1, 5) {
        s.min_r = Some(*r.pick(&[(3, 6), (4, 0), (4, 2), (4, 4)]));
    }
    s
}
pub fn fix_mode(r: &mut Rng, s: &mut Sel) {
    match r.below(8) {
        0 => s.fix_only = true,
        1 => s.unsafe_ = true,
        2 => {
            s.fix_only = true;
            s.unsafe_ = true;
        }
        3 => {
            s.fix = true;
            s.unsafe_ = true;
        }
        _ => s.fix = true,
    }
}
impl Sel {
    pub fn fixing(&self) -> bool {
        self.fix || self.unsafe_ || self.fix_only
    }
    /// Whether the finding of this snippet is looked for at all.
    pub fn enabled(&self, sn: &Snip) -> bool {
        let has = |v: &Vec<String>| v.iter().any(|x| x == sn.rule);
        let base = if self.select.is_empty() {
            sn.on
        } else {
            has(&self.select)
        };
        if !(base || has(&self.extend)) || has(&self.ignore) {
            return false;
        }
        match (sn.min_r, self.min_r) {
            (None, _) => {}
            (Some(a), Some(b)) if b >= a => {}
            _ => return false,
        }
        if self.fixing() && !self.unsafe_ && !sn.safe {
            return false;
        }
        !(self.fix_only && !has_fix(sn.rule))
    }
    pub fn fixes(&self, sn: &Snip) -> bool {
        self.fixing()
            && self.enabled(sn)
            && sn.fix.is_some()
            && !self.unfixable.iter().any(|x| x == sn.rule)
            && self
                .fixable
                .as_ref()
                .is_none_or(|f| f.iter().any(|x| x == sn.rule))
    }
    pub fn args(&self) -> Vec<String> {
        let mut a = vec![];
        if self.fix {
            a.push("--fix".to_string());
        }
        if self.unsafe_ {
            a.push("--unsafe-fixes".into());
        }
        if self.fix_only {
            a.push("--fix-only".into());
        }
        if let Some((x, y)) = self.min_r {
            a.push("--min-r-version".into());
            a.push(format!("{x}.{y}"));
        }
        if !self.toml {
            for (k, v) in [
                ("--select", &self.select),
                ("--extend-select", &self.extend),
                ("--ignore", &self.ignore),
            ] {
                if !v.is_empty() {
                    a.push(k.into());
                    a.push(v.join(","));
                }
            }
        }
        a
    }
    /// Fields for a `[lint]` table.
    pub fn lint_table(&self) -> String {
        let mut s = String::new();
        if self.toml {
            for (k, v) in [
                ("select", &self.select),
                ("extend-select", &self.extend),
                ("ignore", &self.ignore),
                ("unfixable", &self.unfixable),
            ] {
                if !v.is_empty() {
                    s.push_str(&format!("{k} = {v:?}\n"));
                }
            }
            if let Some(f) = &self.fixable {
                s.push_str(&format!("fixable = {f:?}\n"));
            }
        }
        s
    }
}

/// Why a file is or is not looked at.
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Role {
    /// An R file that is checked.
    R,
    /// R Markdown or Quarto: checked, never fixed.
    Rmd,
    /// Selected, but does not parse or is not UTF-8.
    Bad,
    /// Not an R file, hidden, ignored or excluded.
    Out,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct PFile {
    pub path: String,
    pub role: Role,
    pub eol: String,
    pub last_eol: bool,
    pub mode: u32,
    /// Name of the parameter that holds the blocks.
    pub blks: String,
    /// Appended to the rendered text.
    pub tail: Bytes,
}

/// Put a file of generated R code into the scenario.
pub fn add_file(
    r: &mut Rng,
    sc: &mut Scenario,
    fs: &mut Vec<PFile>,
    path: &str,
    role: Role,
    max: u64,
    on_only: bool,
) {
    let rmd = is_rmd(path);
    let n = r.below(max + 1);
    let bs: Vec<Blk> = (0..n).map(|_| blk(r, rmd, on_only)).collect();
    let key = format!("L{:02}", fs.len());
    sc.put(&key, &bs);
    let tail = match role {
        Role::Bad if r.chance(1, 2) => Bytes(b"\nx <- '\xff\xfe'\n".to_vec()),
        Role::Bad => Bytes(format!("\n{}", r.pick(BROKEN)).into_bytes()),
        _ => Bytes::default(),
    };
    fs.push(PFile {
        path: path.into(),
        role,
        eol: if r.chance(1, 4) { "\r\n" } else { "\n" }.into(),
        last_eol: r.chance(3, 4),
        mode: *r.pick(&[0o644, 0o644, 0o755, 0o600, 0o664]),
        blks: key,
        tail,
    });
}
impl PFile {
    pub fn bs(&self, sc: &Scenario) -> Vec<Blk> {
        sc.get(&self.blks).unwrap_or_default()
    }
    fn doc(&self) -> GDoc {
        GDoc {
            path: self.path.clone(),
            eol: self.eol.clone(),
            last_eol: self.last_eol,
            rmd: is_rmd(&self.path),
        }
    }
    pub fn text(&self, sc: &Scenario) -> Vec<u8> {
        let mut t = render_doc(&self.doc(), &self.bs(sc)).0.into_bytes();
        t.extend(&self.tail.0);
        t
    }
    /// Findings reported by a run with this selection that fixes nothing.
    pub fn findings(&self, sc: &Scenario, s: &Sel) -> Vec<(usize, usize, String)> {
        if matches!(self.role, Role::Bad | Role::Out) {
            return vec![];
        }
        let f = render_doc(&self.doc(), &self.bs(sc)).1;
        let sns = live(is_rmd(&self.path), &self.bs(sc));
        f.into_iter()
            .zip(sns)
            .filter(|(_, i)| s.enabled(&SNIPS[*i]))
            .map(|(f, _)| (f.start, f.end, f.rule))
            .collect()
    }
    /// The text after fixing.
    pub fn fixed(&self, sc: &Scenario, s: &Sel) -> Vec<u8> {
        if self.role != Role::R {
            return self.text(sc);
        }
        let bs = fix_blks(is_rmd(&self.path), &self.bs(sc), |n| s.fixes(n));
        let t = render_doc(&self.doc(), &bs).0;
        let mut t = t.into_bytes();
        t.extend(&self.tail.0);
        t
    }
}
pub fn files_of(sc: &Scenario) -> Vec<PFile> {
    sc.get("files").unwrap_or_default()
}
/// The scenario's tree with its generated files.
pub fn full_tree(sc: &Scenario) -> Tree {
    let mut t = sc.tree.clone();
    for f in files_of(sc) {
        t.insert(
            f.path.clone(),
            Node {
                kind: Kind::File,
                data: Bytes(f.text(sc)),
                mode: f.mode,
            },
        );
    }
    t
}

/// A version-controlled directory: its committed state is the tree's, except
/// for `but`.
pub fn git_index(t: &Tree, root: &str, but: &[String]) -> String {
    let mut s = String::new();
    let pre = format!("{root}/");
    for (p, n) in t {
        let Some(rel) = p.strip_prefix(&pre) else {
            continue;
        };
        if n.kind != Kind::File
            || rel.starts_with(".git/")
            || rel.contains("/.git/")
            || but.contains(p)
        {
            continue;
        }
        s.push_str(&format!("{:016x}\t{rel}\n", git_hash(&n.data.0)));
    }
    s
}
pub fn git_hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// A directory of files in all roles. Paths are below `root`.
pub fn tree_files(r: &mut Rng, sc: &mut Scenario, root: &str, n: u64, on_only: bool) -> Vec<PFile> {
    let mut fs: Vec<PFile> = vec![];
    let names = [
        "a.R",
        "b.R",
        "c.R",
        "sub/d.R",
        "sub/deep/e.r",
        "x y.R",
        "né.R",
        "sub/z.R",
        "t/f.R",
        "[g].R",
        "u'v.R",
    ];
    let outs = [
        "renv/activate.R",
        "cpp11.R",
        "R/import-standalone-z.R",
        ".hid/h.R",
        "sub/.h.R",
        "data.txt",
        "script.py",
        "revdep/r.R",
        "RcppExports.R",
        "no_ext",
        "sub/extendr-wrappers.R",
        "q.R.bak",
    ];
    let rmds = ["doc.Rmd", "sub/vign.qmd", "w.rmd"];
    let mut used = BTreeSet::new();
    for _ in 0..n {
        let (name, role) = match r.below(12) {
            0 => (*r.pick(&rmds), Role::Rmd),
            1 => (*r.pick(&["bad.R", "sub/bad2.R"]), Role::Bad),
            2 | 3 => (*r.pick(&outs), Role::Out),
            _ => (*r.pick(&names), Role::R),
        };
        if used.insert(name) {
            add_file(r, sc, &mut fs, &format!("{root}/{name}"), role, 5, on_only);
        }
    }
    fs
}

/// Once in a while, as many files as real projects have.
pub fn many(r: &mut Rng, sc: &mut Scenario, fs: &mut Vec<PFile>, root: &str, on_only: bool) {
    if !r.chance(1, 40) {
        return;
    }
    let m = *r.pick(&[12, 30, 60, 130]);
    let k = r.below(4);
    for i in 0..m {
        let role = match k {
            0 => Role::Bad,
            1 if r.chance(1, 3) => Role::Bad,
            _ => Role::R,
        };
        add_file(r, sc, fs, &format!("{root}/many/f{i:03}.R"), role, 1, on_only);
    }
}

// -------------------------------------------------------------------- reports

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rep {
    /// Absolute path -> (start, end, rule).
    pub found: BTreeMap<String, Vec<(usize, usize, String)>>,
    pub errors: BTreeMap<String, String>,
    pub rows: BTreeMap<String, Vec<(usize, u64, u64)>>,
    pub n: usize,
}
pub fn abs(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') {
        p.to_string()
    } else {
        format!("{cwd}/{p}")
    };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
pub fn report(o: &Outcome, cwd: &str) -> Option<Rep> {
    let v: Value = serde_json::from_str(&o.stdout.str()).ok()?;
    let mut r = Rep::default();
    for d in v["diagnostics"].as_array()? {
        let p = abs(cwd, d["filename"].as_str()?);
        r.n += 1;
        r.found.entry(p.clone()).or_default().push((
            d["range"][0].as_u64()? as usize,
            d["range"][1].as_u64()? as usize,
            d["message"]["name"].as_str()?.to_string(),
        ));
        r.rows.entry(p).or_default().push((
            d["range"][0].as_u64()? as usize,
            d["location"]["row"].as_u64()?,
            d["location"]["column"].as_u64()?,
        ));
    }
    for v in r.found.values_mut() {
        v.sort();
    }
    for e in v["errors"].as_array()? {
        r.errors.insert(
            abs(cwd, e["file"].as_str()?),
            e["error"].as_str()?.to_string(),
        );
    }
    Some(r)
}
pub fn svec(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// The run ended by itself, in one of the documented ways.
pub fn ended(o: &Outcome) -> Option<Viol> {
    match &o.status {
        Status::Exit(0 | 1 | 255) => None,
        Status::Exit(101) => viol(
            "panic",
            format!("the run panicked: {}", clip(&o.stderr.str(), 600)),
        ),
        s => viol(
            "end",
            format!(
                "the run ended with {s:?}; {}; blocked: {:?}",
                clip(&o.stderr.str(), 300),
                o.blocked
            ),
        ),
    }
}
pub fn code(o: &Outcome) -> i32 {
    match o.status {
        Status::Exit(c) => c,
        _ => -1,
    }
}
/// Names tempfile gives its files.
pub fn is_temp(p: &str) -> bool {
    p.rsplit('/').next().is_some_and(|n| n.starts_with(".tmp"))
}
/// Differences between two trees, in the files `keep` selects.
pub fn tree_diff(a: &Tree, b: &Tree, keep: impl Fn(&str) -> bool) -> Option<String> {
    for p in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        if !keep(p) {
            continue;
        }
        let (x, y) = (a.get(p), b.get(p));
        let imp = |n: Option<&Node>| n.is_none_or(|n| n.kind == Kind::Dir);
        if x != y && !(imp(x) && imp(y)) {
            return Some(format!(
                "{p}: {} but {}",
                clip(&format!("{x:?}"), 400),
                clip(&format!("{y:?}"), 400)
            ));
        }
    }
    None
}

// ----------------------------------------------------------- wild expressions

/// Any R expression built from the flagged patterns.
pub fn wild(r: &mut Rng, depth: u32) -> String {
    if depth == 0 || r.chance(1, 5) {
        return match r.below(8) {
            0 => format!("\"{}\"", r.pick(UNI)),
            1 => format!("{}L", r.below(9)),
            2 => "TRUE".into(),
            3 => "NULL".into(),
            4 => "NA".into(),
            _ => var(r),
        };
    }
    let d = depth - 1;
    match r.below(16) {
        0..=8 => {
            let sn = r.pick(SNIPS);
            let e = if sn.src.contains("\"@")
                || sn.src.contains("@\"")
                || sn.src.contains(" @\"")
                || sn.src.contains("@ in")
                || sn.src.contains("@ =")
            {
                r.pick(NAMES).to_string()
            } else {
                wild(r, d)
            };
            let t = subst(sn.src, &e);
            if r.chance(1, 4) { format!("({t})") } else { t }
        }
        9 => format!("f({}, {})", wild(r, d), wild(r, d)),
        10 => format!("{} && {}", wild(r, d), wild(r, d)),
        11 => format!("{{\n  {}\n  {}\n}}", wild(r, d), wild(r, d)),
        12 => format!("if ({}) {} else {}", wild(r, d), wild(r, d), wild(r, d)),
        13 => format!("function(x) {}", wild(r, d)),
        14 => format!("!{}", wild(r, d)),
        _ => format!("c({}, # {}\n  {})", wild(r, d), r.pick(UNI), wild(r, d)),
    }
}
pub fn wild_text(r: &mut Rng) -> String {
    let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let mut s = String::new();
    for _ in 0..r.range(1, 5) {
        if r.chance(1, 6) {
            s.push_str(&format!("# {}\n", r.pick(UNI)));
        }
        if r.chance(1, 3) {
            s.push_str("x <- ");
        }
        if r.chance(1, 5) {
            let c = crate::rgen::corpus(r);
            s.push_str(&format!("\n{c}\n"));
            continue;
        }
        let d = r.range(1, 4) as u32;
        s.push_str(&wild(r, d));
        s.push_str(*r.pick(&["\n", "\n", "; ", " # é\n", "\n\n"]));
    }
    s.replace('\n', eol)
}
