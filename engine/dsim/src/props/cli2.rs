//! Which files a run writes, and what: C22, C23.
use super::cli::*;
use super::lsp3::mutating;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C22",
            level: "exploration",
            quick: 12000,
            generate: gen22,
            eval: eval22,
            rule: "Projects with files in all roles (excluded by default, by configuration or by .gitignore; hidden; in directories not asked for; behind symbolic links to directories; R Markdown; broken; suppressed; with findings that are disabled, unfixable or unsafe to fix), checked by runs with and without fixing, with up to two injected I/O errors. From the construction follows which files have something to fix; every modifying system call of the run must concern one of these files or a temporary file beside it, and a run without fixing must make none. The final tree is compared as well.",
            assumptions: &[
                "Symbolic links to single files inside a project are not generated here (C20 covers them).",
            ],
        },
        Check {
            id: "C23",
            level: "exploration",
            quick: 6000,
            generate: gen23,
            eval: eval23,
            rule: "Two kinds of documents are fixed. In the first the flagged constructs, nested up to thirty deep, several to a line, with comments inside them, suppressed in different ways, with CRLF, byte order mark and non-ASCII text, are rendered by a model that also renders the expected result; the file must equal it. In the second, expressions nested at random from flagged patterns are fixed in one document and each in a file of its own; the document must equal the concatenation, must have kept every comment, parse, and not change when fixed again. Files are read and written a few bytes at a time in part of the runs.",
            assumptions: &[],
        },
    ]
}

// -------------------------------------------------------------------- C22
const EXCL: &[(&str, &str)] = &[
    ("ex/", "ex/in.R"),
    ("ex/", "ex/deep/in2.R"),
    ("skip*.R", "skip1.R"),
    ("skip*.R", "skip_é.R"),
    ("one.R", "one.R"),
    ("sub/no.R", "sub/no.R"),
];

fn gen22(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C22", "writes");
    vary(r, &mut sc);
    let mut s = sel(r);
    if r.chance(3, 4) {
        fix_mode(r, &mut s);
    }
    let mut fs = {
        let n = r.range(1, 6);
        tree_files(r, &mut sc, "/w", n, false)
    };
    many(r, &mut sc, &mut fs, "/w", false);
    let mut toml = String::new();
    let pats: BTreeSet<&str> = EXCL
        .iter()
        .filter(|_| r.chance(1, 4))
        .map(|x| x.0)
        .collect();
    for (p, f) in EXCL {
        if r.chance(1, 4) {
            let role = if pats.contains(p) { Role::Out } else { Role::R };
            add_file(r, &mut sc, &mut fs, &format!("/w/{f}"), role, 4, false);
        }
    }
    if !pats.is_empty() {
        toml.push_str(&format!(
            "exclude = {:?}\n",
            pats.iter().collect::<Vec<_>>()
        ));
    }
    toml.push_str(&s.lint_table());
    if !toml.is_empty() || r.chance(1, 4) {
        sc.file(
            *r.pick(&["/w/jarl.toml", "/w/.jarl.toml"]),
            format!("[lint]\n{toml}"),
        );
    }
    // Files nobody asked for.
    for p in ["/o/z.R", "/w2/a.R", "/b.R"] {
        if r.chance(1, 3) {
            add_file(r, &mut sc, &mut fs, p, Role::Out, 3, true);
        }
    }
    if sc.tree.keys().any(|k| k.starts_with("/o/")) || fs.iter().any(|f| f.path.starts_with("/o/"))
    {
        let at = *r.pick(&["/w/lnk", "/w/sub/lnk"]);
        sc.tree.insert(at.into(), Node::link("/o"));
    }
    let git = r.chance(1, 4);
    if git {
        if r.chance(2, 3) {
            sc.file("/w/.gitignore", "ign/\n*.gen.R\n");
            for p in ["/w/ign/g.R", "/w/x.gen.R"] {
                if r.chance(1, 2) {
                    add_file(r, &mut sc, &mut fs, p, Role::Out, 3, true);
                }
            }
        }
    }
    let mut a = vec!["check".to_string()];
    a.extend(s.args());
    if git {
        a.push("--allow-dirty".into());
    } else {
        a.push("--allow-no-vcs".into());
    }
    if r.chance(1, 3) {
        a.push("--output-format".into());
        a.push(r.pick(&["json", "concise", "github", "full"]).to_string());
    }
    if r.chance(1, 15) {
        a.push("--statistics".into());
    }
    // Which files are asked for.
    let asked: Vec<String> = match r.below(6) {
        0 => svec(&["/w/sub"]),
        1 => fs
            .iter()
            .filter(|f| f.role != Role::Out && r.chance(1, 2))
            .map(|f| f.path.clone())
            .collect(),
        2 => svec(&["sub", "./a.R"]),
        3 => svec(&["/w"]),
        _ => svec(&["."]),
    };
    let asked = if asked.is_empty() {
        svec(&["/w"])
    } else {
        asked
    };
    let dirs: Vec<String> = asked.iter().map(|p| abs("/w", p)).collect();
    for f in &mut fs {
        if !dirs
            .iter()
            .any(|d| *d == f.path || f.path.starts_with(&format!("{d}/")))
        {
            f.role = Role::Out;
        }
    }
    a.extend(asked);
    sc.args = a;
    sc.put("files", &fs);
    sc.put("sel", &s);
    if git {
        sc.tree.insert(
            "/w/.git".into(),
            Node {
                kind: Kind::Dir,
                data: Bytes::default(),
                mode: 0o755,
            },
        );
        let t = full_tree(&sc);
        sc.file("/w/.git/standin_index", git_index(&t, "/w", &[]));
    }
    if r.chance(1, 2) {
        let mut e = sc.cli(&sc.args);
        e.tree = full_tree(&sc);
        let o = cx.reference(e);
        for _ in 0..r.range(1, 2) {
            // What can't be read of .gitignore is the ignore crate's concern.
            sc.faults
                .extend(fault_at(r, &o.ops, false).filter(|f| !f.path.contains("/.git")));
        }
    }
    sc
}
fn dir_of(p: &str) -> &str {
    p.rfind('/').map_or("", |i| &p[..i])
}
fn eval22(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s: Sel = sc.get("sel")?;
    let fs = files_of(sc);
    let t0 = full_tree(sc);
    let mut e = sc.cli(&sc.args);
    e.tree = t0.clone();
    e.faults = sc.faults.clone();
    let o = cx.run(e);
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    let may: BTreeSet<&str> = fs
        .iter()
        .filter(|f| s.fixing() && f.role == Role::R && f.fixed(sc, &s) != f.text(sc))
        .map(|f| f.path.as_str())
        .collect();
    let dirs: BTreeSet<&str> = may.iter().map(|p| dir_of(p)).collect();
    for p in o.ops.iter().filter(|p| mutating(p)) {
        if !(may.contains(p.path.as_str()) || is_temp(&p.path) && dirs.contains(dir_of(&p.path))) {
            return viol(
                "write",
                format!(
                    "{} on {} although only {:?} are to be fixed",
                    p.op, p.path, may
                ),
            );
        }
    }
    if let Some(d) = tree_diff(&t0, &o.tree, |p| {
        !may.contains(p) && !(is_temp(p) && o.fired.iter().any(|f| f.op == "unlink"))
    }) {
        return viol("changed", d);
    }
    if !o.fired.is_empty() {
        cx.m.probe("fault fired");
    }
    let fx = Sel {
        fix: true,
        unsafe_: true,
        select: SNIPS.iter().map(|s| s.rule.to_string()).collect(),
        ..Sel::default()
    };
    if fs.iter().any(|f| {
        !may.contains(f.path.as_str())
            && PFile {
                role: Role::R,
                ..f.clone()
            }
            .fixed(sc, &fx)
                != f.text(sc)
    }) {
        cx.m.probe("fixable code in files that must not be written");
    }
    if s.fixing() && sc.faults.is_empty() {
        if may.iter().any(|p| o.tree.get(*p) != t0.get(*p)) {
            cx.m.probe("files written");
        }
        if let Some(p) = may.iter().find(|p| o.tree.get(**p) == t0.get(**p)) {
            return viol(
                "unfixed",
                format!(
                    "{p} has something to fix but was not changed; stderr {}",
                    clip(&o.stderr.str(), 300)
                ),
            );
        }
    }
    None
}

// -------------------------------------------------------------------- C23
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Nest {
    snip: usize,
    inner: Option<Box<Nest>>,
    var: String,
    /// A comment after the first parenthesis (1) or operator (2).
    com: u8,
}
/// Calls whose argument can be anything, before and after fixing.
const OUTER: &[&str] = &[
    "any_is_na",
    "any_duplicated",
    "length_levels",
    "lengths",
    "seq2",
    "matrix_apply",
    "which_grepl",
];
const VARS: &[&str] = &[
    "f(\"é\")",
    "g(1,\n  2)",
    "lst$`日本`",
    "h(\"a #b\", '😀')",
    "k[[\"ß\"]]",
    "m(function(z) {\n  z + 1\n})",
];
fn quoted(sn: &Snip) -> bool {
    sn.src.contains("\"@") || sn.src.contains("@\"") || sn.src.contains(" @\"")
}
fn commented(src: &str, com: u8) -> String {
    match com {
        1 => src.replacen('(', "( # kept é\n    ", 1),
        2 => match [" == ", " != ", " = ", " || "]
            .iter()
            .find(|o| src.contains(**o))
        {
            Some(o) => src.replacen(o, &format!("{o}# kept é\n    "), 1),
            None => src.into(),
        },
        _ => src.into(),
    }
}
fn nest(r: &mut Rng, depth: u32, top: bool) -> Nest {
    loop {
        let i = r.us(SNIPS.len());
        let sn = &SNIPS[i];
        let outer = OUTER.contains(&sn.rule);
        if !top
            && [
                "assignment",
                "for_loop_index",
                "coalesce",
                "true_false_symbol",
                "internal_function",
            ]
            .contains(&sn.rule)
        {
            continue;
        }
        if depth > 0 && !outer && r.chance(2, 3) {
            continue;
        }
        let inner = if outer && depth > 0 && r.chance(3, 4) {
            Some(Box::new(nest(r, depth - 1, false)))
        } else {
            None
        };
        let v = if quoted(sn) || ["for_loop_index", "assignment"].contains(&sn.rule) {
            r.pick(NAMES).to_string()
        } else if r.chance(1, 4) && !["coalesce", "sort"].contains(&sn.rule) {
            r.pick(VARS).to_string()
        } else {
            var(r)
        };
        // The length of a comparison is another rule's business.
        let inner = inner.filter(|n| {
            sn.rule != "seq2" || OUTER.contains(&n.sn().rule) && n.sn().rule != "any_duplicated"
        });
        let mut com = if r.chance(1, 6) {
            r.range(1, 2) as u8
        } else {
            0
        };
        if subst(sn.src, &v) == commented(sn.src, com).replace('@', &v) {
            com = 0;
        }
        return Nest {
            snip: i,
            inner,
            var: v,
            com,
        };
    }
}
/// As many fixes inside each other as it takes.
fn deep(r: &mut Rng) -> Nest {
    let mut n = nest(r, 0, false);
    n.com = 0;
    for _ in 0..r.range(5, 30) {
        let i = loop {
            let i = r.us(SNIPS.len());
            let sn = &SNIPS[i];
            if OUTER.contains(&sn.rule)
                && (sn.rule != "seq2"
                    || OUTER.contains(&n.sn().rule) && n.sn().rule != "any_duplicated")
            {
                break i;
            }
        };
        n = Nest {
            snip: i,
            inner: Some(Box::new(n)),
            var: "x".into(),
            com: 0,
        };
    }
    n
}
impl Nest {
    fn sn(&self) -> &'static Snip {
        &SNIPS[self.snip]
    }
    fn wrap(&self, x: &str) -> String {
        subst(&commented(self.sn().src, self.com), x)
    }
    fn src(&self) -> String {
        match &self.inner {
            Some(n) => self.wrap(&n.src()),
            None => self.wrap(&self.var),
        }
    }
    fn has_comment(&self) -> bool {
        self.com > 0 || self.inner.as_ref().is_some_and(|n| n.has_comment())
    }
    fn fixed(&self, s: &Sel) -> String {
        let x = match &self.inner {
            Some(n) => n.fixed(s),
            None => self.var.clone(),
        };
        if s.fixes(self.sn()) && !self.has_comment() {
            subst(self.sn().fix.unwrap(), &x)
        } else {
            self.wrap(&x)
        }
    }
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Ln {
    lead: String,
    supp: bool,
    /// After the line.
    #[serde(default)]
    end: String,
    /// 0: one per line, 1: joined by semicolons, 2: arguments of a call.
    join: u8,
    parts: Vec<Nest>,
    trail: String,
}
impl Ln {
    fn text(&self, f: impl Fn(&Nest) -> String) -> String {
        let ps: Vec<String> = self.parts.iter().map(f).collect();
        let b = match self.join {
            2 => format!("`v é` <- f({})", ps.join(", ")),
            1 => ps.join("; "),
            _ => ps.join("\n"),
        };
        format!("{}{b}{}\n{}", self.lead, self.trail, self.end)
    }
}
fn ln(r: &mut Rng) -> Ln {
    let supp = r.chance(1, 6);
    let join = if supp { 0 } else { r.below(3) as u8 };
    let n = if supp { 1 } else { r.range(1, 3) };
    let mut parts: Vec<Nest> = (0..n)
        .map(|_| {
            let d = if supp {
                0
            } else if r.chance(1, 25) {
                return deep(r);
            } else {
                r.below(4) as u32
            };
            nest(r, d, join != 2)
        })
        .collect();
    if supp {
        parts[0].inner = None;
    }
    let mut lead = String::new();
    if r.chance(1, 4) {
        lead.push_str(&format!("# {} lead\n", r.pick(UNI)));
    }
    let mut end = String::new();
    if supp {
        let rule = parts[0].sn().rule;
        lead.push_str(&match r.below(4) {
            0 => {
                end = format!("# jarl-ignore-end {rule}\n");
                format!("# jarl-ignore-start {rule}: on purpose\n")
            }
            1 => format!("#jarl-ignore {rule}: on purpose\n"),
            _ => format!("# jarl-ignore {rule}: on purpose\n"),
        });
    }
    let trail = if r.chance(1, 4) {
        format!(" # {} trail", r.pick(UNI))
    } else {
        String::new()
    };
    Ln {
        lead,
        supp,
        end,
        join,
        parts,
        trail,
    }
}

fn gen23(r: &mut Rng, _cx: &mut Ctx) -> Scenario {
    let model = r.chance(1, 2);
    let mut sc = Scenario::new("C23", if model { "model" } else { "pieces" });
    vary(r, &mut sc);
    let mut s = sel(r);
    if model {
        s.fix = true;
        s.unsafe_ = r.chance(1, 3);
    } else {
        fix_mode(r, &mut s);
    }
    if s.toml {
        sc.file("/w/jarl.toml", format!("[lint]\n{}", s.lint_table()));
    }
    sc.put("eol", if r.chance(1, 3) { "\r\n" } else { "\n" });
    sc.put("bom", r.chance(1, 12));
    // Reading and writing a few bytes at a time makes no difference.
    for (op, path) in [("read", "/w/*"), ("write", "/w/*")] {
        if r.chance(1, 4) {
            sc.faults.push(Fault {
                op: op.into(),
                path: path.into(),
                nth: 0,
                act: if r.chance(1, 4) {
                    Act::Stall(r.range(1, 3000))
                } else {
                    Act::Short(r.range(1, 40) as usize)
                },
            });
        }
    }
    if model {
        let l: Vec<Ln> = (0..r.range(1, 6)).map(|_| ln(r)).collect();
        sc.put("Lines", l);
    } else {
        let n = r.range(2, 6);
        let l: Vec<String> = (0..n)
            .map(|i| {
                let c = crate::rgen::corpus(r);
                if r.chance(1, 4) && !c.contains("jarl-ignore") {
                    return format!("{c}\n");
                }
                let d = r.range(1, 4) as u32;
                let lead = if r.chance(1, 5) {
                    format!("# {} lead\n", r.pick(UNI))
                } else {
                    String::new()
                };
                let asg = if r.chance(1, 3) { "x <- " } else { "" };
                let end = if i + 1 == n {
                    "\n"
                } else {
                    *r.pick(&["\n", "\n", "\n", "\n\n", "; ", " # é\n", "  # n\n\n"])
                };
                let w = wild(r, d);
                // What would go on reading the line below as part of it is closed.
                format!("{lead}{asg}{w}{end}")
            })
            .collect();
        sc.put("Lines", l);
    }
    sc.put("sel", &s);
    sc.args = svec(&["check", "--allow-no-vcs", "--output-format", "json"]);
    sc.args.extend(s.args());
    sc.args.push("/w".into());
    sc.shrink = vec!["lines".into()];
    sc
}
fn comments(t: &str) -> Vec<String> {
    t.split('\n')
        .filter_map(|l| {
            l.find("# ")
                .map(|i| l[i..].trim_end_matches('\r').to_string())
        })
        .collect()
}
fn eval23(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s: Sel = sc.get("sel")?;
    let eol = sc.s("eol").to_string();
    let bom = if sc.get("bom") == Some(true) {
        "\u{feff}"
    } else {
        ""
    };
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    let all = "/w/all.R".to_string();
    let pieces: Vec<String>;
    if sc.kind == "model" {
        let l: Vec<Ln> = sc.get("Lines")?;
        let src: String = l.iter().map(|l| l.text(|n| n.src())).collect();
        let fx: String = l
            .iter()
            .map(|l| {
                if l.supp {
                    l.text(|n| n.src())
                } else {
                    l.text(|n| n.fixed(&s))
                }
            })
            .collect();
        files.insert(all.clone(), format!("{bom}{}", src.replace('\n', &eol)));
        want.insert(all.clone(), format!("{bom}{}", fx.replace('\n', &eol)));
        pieces = vec![];
    } else {
        let l: Vec<String> = sc.get("Lines")?;
        pieces = l.iter().map(|x| x.replace('\n', &eol)).collect();
        files.insert(all.clone(), format!("{bom}{}", pieces.concat()));
        for (i, p) in pieces.iter().enumerate() {
            files.insert(format!("/w/p{i}.R"), p.clone());
        }
    }
    let mut e = sc.cli(&sc.args);
    for (p, t) in &files {
        e.tree.insert(p.clone(), Node::file(t.clone()));
    }
    let text = |t: &Tree, p: &str| {
        t.get(p)
            .map(|n| String::from_utf8_lossy(&n.data.0).to_string())
            .unwrap_or_default()
    };
    e.faults = sc.faults.clone();
    let mut tree = e.tree.clone();
    for run in 0.. {
        if run == 15 {
            return viol(
                "endless",
                format!("15 runs in a row changed {:?}", files[&all]),
            );
        }
        e.tree = tree.clone();
        let o = cx.run(e.clone());
        if let Some(v) = ended(&o) {
            return Some(v);
        }
        let Some(rep) = report(&o, "/w") else {
            return viol(
                "report",
                format!("no report: {}", clip(&o.stderr.str(), 300)),
            );
        };
        if !rep.errors.is_empty() {
            if run > 0 || sc.kind == "model" {
                return viol(
                    "error",
                    format!(
                        "{:?}: {:?} became {:?}",
                        rep.errors,
                        files[&all],
                        text(&tree, &all)
                    ),
                );
            }
            // Not R: nothing to compare.
            return if let Some(p) = rep.errors.keys().find(|p| text(&o.tree, p) != files[*p]) {
                viol(
                    "broken",
                    format!("{p} was changed although it has an error"),
                )
            } else {
                None
            };
        }
        if run == 0 && sc.kind == "model" {
            let got = text(&o.tree, &all);
            if got != want[&all] {
                return viol(
                    "text",
                    format!(
                        "fixing {:?} gave {:?} instead of {:?}",
                        files[&all], got, want[&all]
                    ),
                );
            }
            if got != files[&all] {
                cx.m.probe("constructs replaced as the model says");
            }
        }
        let same = o.tree == tree;
        tree = o.tree;
        for (p, t) in &files {
            let (a, b) = (comments(t), comments(&text(&tree, p)));
            if a != b {
                return viol(
                    "comments",
                    format!(
                        "fixing {t:?} gave {:?}: comments {a:?} became {b:?}",
                        text(&tree, p)
                    ),
                );
            }
        }
        if same {
            break;
        }
    }
    if sc.kind != "model" {
        let got = text(&tree, &all);
        let parts: String = (0..pieces.len())
            .map(|i| text(&tree, &format!("/w/p{i}.R")))
            .collect();
        if got != format!("{bom}{parts}") {
            return viol(
                "parts",
                format!(
                    "fixing {:?} gave {:?}; its parts alone give {:?}",
                    files[&all], got, parts
                ),
            );
        }
        if got != files[&all] {
            cx.m.probe("document fixed like its parts");
        }
    }
    None
}
