//! Findings about a package as a whole: C56.
use super::cli4::spell;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C56",
        level: "exploration",
        quick: 12000,
        generate: gen56,
        eval: eval56,
        rule: "One to three packages with definitions and uses of functions of similar names, spread over the files of R/, its subdirectories, tests/, inst/ and src/, with exports of every form, excluded, unparseable and differently encoded files, are checked as a whole or in parts, from several working directories, under random schedules, thread counts, directory orders and hash seeds, with reads that return few bytes or are interrupted. From the construction follows which functions are used, exported or defined twice: no reported function may be used, every function nothing mentions must be reported, and of several definitions all but the first.",
        assumptions: &[
            "Functions that are only mentioned (comments, their own body, other scopes) may be reported or not.",
        ],
    }]
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
enum What {
    /// A top-level definition; starts with the name.
    Def,
    /// Uses the function.
    Use,
    /// Contains the name, without being a use.
    Mention,
    /// Something else.
    Other,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Line {
    root: String,
    path: String,
    what: What,
    name: String,
    text: String,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Ns {
    root: String,
    exports: Vec<String>,
    text: String,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Pkg {
    root: String,
    description: bool,
    namespace: bool,
}

const NAMES: &[&str] = &[
    "fn1", "fn11", "fn", "fn2", "helper_a", "helper_ab", "a1", "x_", "début", "naïve2", "été", "чт",
    "calc.it", ".hid", "Fn1", "n1", "tfn1",
];
const HOOKS: &[&str] = &[".onLoad", ".onAttach", ".onUnload", ".Last.lib"];
const FILES: &[&str] = &[
    "R/a.R",
    "R/b.R",
    "R/c.r",
    "R/B.R",
    "R/a-b.R",
    "R/aa.R",
    "R/zzz.R",
    "R/gen.R",
    "R/cpp11.R",
    "R/unix/u.R",
    "R/windows/u.R",
    "tests/t.R",
    "tests/testthat/test-a.R",
    "tests/testthat/helper.R",
    "inst/tinytest/t.R",
    "inst/tests/t.R",
    "src/a.c",
    "src/b.cpp",
    "src/c.cc",
    "src/sub/d.h",
    "src/e.hpp",
    "src/sub/deep/f.c",
    "tests/testthat/sub/x.R",
    "tests/.h/x.R",
    "inst/tinytest/a/b/x.r",
    "R/unix/deep/u.R",
    "R/unix/a.R",
    "R/windows/b.R",
    "tests/a.R",
];

fn use_text(r: &mut Rng, n: &str, c: bool) -> String {
    if c {
        return match r.below(5) {
            0 => format!("static SEXP f(void) {{ return Rf_install(\"{n}\"); }}"),
            1 => format!("#define HELPER \"{n}\""),
            2 => format!("  Rcpp::Function f = env[\"{n}\"];"),
            3 => format!("  R_ParseEvalString(\"\\t{n}()\", env);"),
            _ => format!("  call(\"{n}\"); // calls back"),
        };
    }
    match r.below(22) {
        0 => format!("{n}(1)"),
        18 => format!("y <- paste(\"# \", {n}(1))"),
        19 => format!("y <- '#'; {n}"),
        20 => format!("{n} -> y"),
        1 => format!("y <- lapply(x, {n})"),
        2 => format!("do.call(\"{n}\", list())"),
        3 => format!("`{n}`(2)"),
        4 => format!("p:::{n}(x)"),
        5 => format!("x |> {n}()"),
        6 => format!("if (TRUE) {n}(1)"),
        7 => format!("z <- list(a={n})"),
        8 => format!("eval(parse(text = \"1\\n{n}(2)\"))"),
        9 => format!("x[{n}(1)]"),
        10 => format!("y <- !{n}(1)"),
        11 => format!("local({{\n  # first\n  {n}(x)\n}})"),
        12 => format!("f(function(x) {n})"),
        13 => format!("y <- \"\n# a comment\n  {n}(1)\n\""),
        14 => format!("#' \\Sexpr{{{n}()}}"),
        15 => format!("tryCatch({n}(), error = identity)"),
        16 => format!("y <- 1;{n}(2)"),
        17 => format!("y <- r\"(\n{n}()\n)\""),
        _ => format!("y <- x${n}(1)"),
    }
}
fn def_text(r: &mut Rng, n: &str) -> String {
    match r.below(7) {
        0 => format!("{n} = function(x) x"),
        1 => format!("{n} <- \\(x) x"),
        2 => format!("{n}<-function(x)x"),
        3 => format!("{n} <- function(x) {{\n  y <- 1\n\n  y\n}}"),
        4 => format!("{n}  <-  function (a, b = \"é\") a"),
        _ => format!("{n} <- function(x) x"),
    }
}
fn mention_text(r: &mut Rng, n: &str, c: bool) -> String {
    if c {
        return format!("// {n}");
    }
    match r.below(4) {
        0 => format!("# {n}()"),
        1 => format!("y <- 1 # {n}"),
        2 => format!("local({{\n  {n} <- function(x) x\n}})"),
        _ => format!("y <- 2 # jarl: {n}()"),
    }
}
fn ns_text(r: &mut Rng, names: &[&str]) -> (String, Vec<String>) {
    let a = *r.pick(names);
    let b = *r.pick(names);
    let re = |n: &str| n.replace('.', "\\\\.");
    let plain = !a.contains('.');
    let (t, l): (String, Vec<&str>) = match r.below(24) {
        0 => (format!("export({a})"), vec![a]),
        1 => (format!("export({a}, {b})"), vec![a, b]),
        2 => (format!("export(\"{a}\",\"{b}\")"), vec![a, b]),
        3 => (format!("export('{a}')"), vec![a]),
        4 => (format!("export(`{a}`)"), vec![a]),
        5 => (format!("export(\n  {a},\n  {b}\n)"), vec![a, b]),
        6 => (format!("export({a}); export({b})"), vec![a, b]),
        7 => (format!("export({a}) # kept (for now)"), vec![a]),
        8 => (format!("if (TRUE) export({a})"), vec![a]),
        9 => (
            format!("if (getRversion() >= \"4.0.0\") {{\n  export({a})\n  export({b})\n}}"),
            vec![a, b],
        ),
        10 => (format!("exportPattern(\"^{}$\")", re(a)), vec![a]),
        11 => (
            format!("exportPattern(\"^{}$\", \"^{}$\")", re(a), re(b)),
            vec![a, b],
        ),
        12 if plain => (format!("S3method(print, cls, {a})"), vec![a]),
        13 if plain => (format!("S3method(\n  base::print,\n  \"cls\",\n  {a}\n)"), vec![a]),
        14 => (
            format!("export(\n  {a}, # first (kept)\n  # second\n  {b})"),
            vec![a, b],
        ),
        15 => (format!("exportMethods({a})"), vec![a]),
        16 => (format!("export ({a})"), vec![a]),
        17 => (format!("export({a},\n       {b},)"), vec![a, b]),
        18 if r.chance(1, 3) => ("exportPattern(\"^fn\\\\d+$\")".into(), vec!["fn1", "fn11", "fn2"]),
        19 => (format!("export(\"{a}\")\t\n\nimportFrom(stats,sd)"), vec![a]),
        20 => (
            format!("export({a})importFrom(utils, head)").replace(")i", ")\ni"),
            vec![a],
        ),
        21 => ("importFrom(stats,\n  sd,\n  var)".into(), vec![]),
        22 => ("useDynLib(p, .registration = TRUE)".into(), vec![]),
        _ => ("S3method(print,cls)".into(), vec!["print.cls"]),
    };
    (t, l.into_iter().map(String::from).collect())
}

fn gen56(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C56", "check");
    vary(r, &mut sc);
    let mut roots = svec(&["/w", "/w/pk", "/v/p", "/w/sub/pk"]);
    r.shuffle(&mut roots);
    roots.truncate(*r.pick(&[1, 1, 1, 2, 3]));
    roots.sort();
    let mut pkgs = vec![];
    let mut lines = vec![];
    let mut ns = vec![];
    for root in &roots {
        pkgs.push(Pkg {
            root: root.clone(),
            description: r.chance(14, 15),
            namespace: r.chance(14, 15),
        });
        let mut names = NAMES.to_vec();
        r.shuffle(&mut names);
        names.truncate(r.range(2, 9) as usize);
        if r.chance(1, 4) {
            names.push(*r.pick(HOOKS));
        }
        let mut files: Vec<&str> = FILES.to_vec();
        r.shuffle(&mut files);
        let most = *r.pick(&[9, 9, 9, 26]);
        files.truncate(r.range(1, most) as usize);
        // Sometimes there are many.
        let more: Vec<String> = (0..if r.chance(1, 8) { r.range(5, 60) } else { 0 })
            .map(|i| {
                let d = r.pick(&["R/m", "R/n", "tests/testthat/test-m", "R/unix/m"]);
                format!("{d}{i}.R")
            })
            .collect();
        files.extend(more.iter().map(|f| f.as_str()));
        if !files.iter().any(|f| f.starts_with("R/")) {
            files.push("R/a.R");
        }
        let top: Vec<&str> = files
            .iter()
            .filter(|f| f.starts_with("R/") && f.matches('/').count() == 1)
            .copied()
            .collect();
        let push = |what, f: &str, n: &str, text: String, lines: &mut Vec<Line>| {
            lines.push(Line {
                root: root.clone(),
                path: format!("{root}/{f}"),
                what,
                name: n.into(),
                text,
            })
        };
        // A few definitions, then few uses, so that some have none.
        let few = r.chance(2, 3);
        for n in &names {
            if !top.is_empty() {
                for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 2, 3]) {
                    let f = *r.pick(&top);
                    let t = def_text(r, n);
                    push(What::Def, f, n, t, &mut lines);
                }
            }
            let k = if few {
                *r.pick(&[0, 0, 0, 1, 1, 2])
            } else {
                *r.pick(&[0, 1, 2, 3])
            };
            for _ in 0..k {
                let f = *r.pick(&files);
                let c = f.starts_with("src/");
                if !c && !f.starts_with("R/") && r.chance(1, 3) {
                    let t = def_text(r, n);
                    push(What::Def, f, n, t, &mut lines);
                    continue;
                }
                if r.chance(1, 6) {
                    let t = mention_text(r, n, c);
                    push(What::Mention, f, n, t, &mut lines);
                } else {
                    let t = use_text(r, n, c);
                    push(What::Use, f, n, t, &mut lines);
                }
            }
        }
        for f in &files {
            for _ in 0..r.below(2) {
                let t = if f.starts_with("src/") {
                    "int main(void);"
                } else {
                    *r.pick(&["", "x <- 1", "# é", "y <- \"a\nb\"", "# nothing", "f(\n  1\n)"])
                };
                push(What::Other, f, "", t.into(), &mut lines);
            }
        }
        r.shuffle(&mut lines);
        for _ in 0..r.below(4) {
            let (text, exports) = ns_text(r, &names);
            ns.push(Ns {
                root: root.clone(),
                exports,
                text,
            });
        }
    }
    let mut paths: Vec<String> = lines.iter().map(|l| l.path.clone()).collect();
    paths.sort();
    paths.dedup();
    let some = |r: &mut Rng, n, d| -> Vec<String> {
        paths.iter().filter(|_| r.chance(n, d)).cloned().collect()
    };
    sc.put("Lcrlf", some(r, 1, 6));
    sc.put("Lnofinal", some(r, 1, 6));
    sc.put("Lbroken", some(r, 1, 20));
    sc.put("Llatin", some(r, 1, 20));
    let linked = some(r, 1, 20);
    sc.put("Llinked", linked);
    if r.chance(1, 4) {
        sc.put("exclude", r.pick(&["R/gen.R", "R/a.R", "gen.R", "tests/"]));
    }
    if r.chance(1, 5) {
        sc.put("skip", r.pick(&NAMES[..8]));
    }
    if r.chance(1, 5) {
        sc.put("threshold", r.below(3));
    }
    sc.put("pkgs", &pkgs);
    sc.put("Lns", &ns);
    sc.put("Llines", &lines);
    sc.cwd = r
        .pick(&["/w", "/w", "/w", "/", "/e", "/w/R", "/v/p", "/w/pk"])
        .to_string();
    for d in ["/e", "/w", "/v/p", "/w/R", "/w/pk"] {
        sc.tree.insert(d.into(), Node::dir());
    }
    let mut l = vec![];
    for _ in 0..r.range(1, 2) {
        let p = match r.below(6) {
            0 | 1 => r.pick(&roots).clone(),
            2 => format!("{}/R", r.pick(&roots)),
            3 => {
                let p = if paths.is_empty() { "/w".to_string() } else { r.pick(&paths).clone() };
                if p.contains("/src/") || p.ends_with("cpp11.R") || p.contains("/.h/") {
                    "/w".into()
                } else {
                    p
                }
            }
            4 => "/".into(),
            _ => "/w".into(),
        };
        let cwd = sc.cwd.clone();
        l.push(spell(r, &p, &cwd));
    }
    sc.put("Largs", &l);
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let act = if r.chance(1, 3) {
                Act::Errno(libc::EINTR)
            } else {
                Act::Short(r.range(1, 9) as usize)
            };
            sc.faults.push(Fault {
                op: "read".into(),
                path: r.pick(&["*", "*NAMESPACE", "*.R"]).to_string(),
                nth: r.range(1, 4) as u32,
                act,
            });
        }
    }
    sc
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Debug)]
enum Scope {
    Top,
    Sub,
    Tests,
    Inst,
    Src,
}
fn scope(l: &Line) -> Scope {
    let p = &l.path[l.root.len() + 1..];
    match p.split('/').next().unwrap() {
        "R" if p.matches('/').count() == 1 => Scope::Top,
        "R" => Scope::Sub,
        "tests" => Scope::Tests,
        "inst" => Scope::Inst,
        _ => Scope::Src,
    }
}
/// Whether the text has the word, perhaps behind the letter of an escape sequence.
fn has_word(text: &str, word: &str) -> bool {
    text.split(|c: char| !c.is_alphanumeric() && c != '.' && c != '_')
        .any(|w| w == word || w.len() == word.len() + 1 && w.ends_with(word))
}
fn eval56(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let pkgs: Vec<Pkg> = sc.get("pkgs")?;
    let lines: Vec<Line> = sc.get("Llines")?;
    let ns: Vec<Ns> = sc.get("Lns")?;
    let args: Vec<String> = sc.get("Largs")?;
    let list = |k: &str| -> Vec<String> { sc.get(k).unwrap_or_default() };
    let (crlf, nofinal, broken, latin) =
        (list("Lcrlf"), list("Lnofinal"), list("Lbroken"), list("Llatin"));
    let linked = list("Llinked");
    let mut t = sc.tree.clone();
    // Contents, and where each definition is.
    let mut texts: BTreeMap<&str, Vec<u8>> = BTreeMap::new();
    let mut at: Vec<usize> = vec![];
    for l in &lines {
        let b = texts.entry(&l.path).or_default();
        at.push(b.len());
        let eol = if crlf.contains(&l.path) { "\r\n" } else { "\n" };
        b.extend(l.text.replace('\n', eol).as_bytes());
        b.extend(eol.as_bytes());
    }
    for (p, mut b) in texts.clone() {
        let s = p.to_string();
        if p.contains("/src/") {
        } else if broken.contains(&s) {
            b.extend(b"if (\n");
        } else if latin.contains(&s) {
            b.extend(b"# caf\xe9\n");
        } else if nofinal.contains(&s) {
            while b.last().is_some_and(|c| b"\r\n".contains(c)) {
                b.pop();
            }
        }
        if linked.contains(&s) {
            let name = format!("/store{p}.txt");
            t.insert(name.clone(), Node::file(Bytes(b)));
            t.insert(s, Node::link(&name));
        } else {
            t.insert(s, Node::file(Bytes(b)));
        }
    }
    for p in &pkgs {
        if p.description {
            t.insert(
                format!("{}/DESCRIPTION", p.root),
                Node::file("Package: p\nVersion: 1.0\n"),
            );
        }
        if p.namespace {
            let s: String = ns
                .iter()
                .filter(|n| n.root == p.root)
                .map(|n| format!("{}\n", n.text))
                .collect();
            t.insert(format!("{}/NAMESPACE", p.root), Node::file(s));
        }
    }
    let mut cfg = String::new();
    if !sc.s("exclude").is_empty() {
        cfg = format!("exclude = [\"{}\"]\n", sc.s("exclude"));
    }
    cfg.push_str("[lint.unused_function]\n");
    if !sc.s("skip").is_empty() {
        cfg.push_str(&format!("skipped-functions = [\"^{}$\"]\n", sc.s("skip")));
    }
    if sc.p.contains_key("threshold") {
        cfg.push_str(&format!("threshold-ignore = {}\n", sc.n("threshold")));
    }
    t.insert("/w/jarl.toml".into(), Node::file(format!("[lint]\n{cfg}")));
    let given: Vec<String> = args.iter().map(|a| abs(&sc.cwd, a)).collect();
    if given.is_empty() || given.iter().any(|p| {
            p != "/" && !t.contains_key(p) && !t.keys().any(|k| k.starts_with(&format!("{p}/")))
        }) {
        return None;
    }
    // Excluded files are only reported when given by name, if then.
    let excluded = |p: &str| {
        p.ends_with("/cpp11.R")
            || p.contains("/.h/")
            || p.starts_with("/w/")
                && match sc.s("exclude") {
                    "" => false,
                    "tests/" => p.contains("/tests/"),
                    "gen.R" => p.ends_with("/gen.R"),
                    x => p == format!("/w/{x}"),
                }
    };
    let below = |d: &str, p: &str| d == "/" || p.starts_with(&format!("{d}/"));
    let checked = |p: &str| {
        !excluded(p) && !linked.iter().any(|x| x == p) && !p.contains("/src/") && {
            given.iter().any(|d| d == p || below(d, p))
        }
    };
    let whole = |root: &str| given.iter().any(|d| d == root || below(d, root));
    let mut a = svec(&[
        "check",
        "--output-format",
        "json",
        "--select",
        "unused_function,duplicated_function_definition",
    ]);
    a.extend(args.iter().cloned());
    let mut e = sc.cli(&a);
    e.tree = t.clone();
    e.faults = sc.faults.clone();
    let o = cx.run(e);
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    let Some(rep) = report(&o, &sc.cwd) else {
        if lines.iter().all(|l| !checked(&l.path)) {
            return None;
        }
        return viol(
            "report",
            format!(
                "status {:?}, standard output {:?}, error {:?}",
                o.status,
                clip(&o.stdout.str(), 300),
                clip(&o.stderr.str(), 300)
            ),
        );
    };
    let unread = |p: &str| {
        broken.iter().any(|x| x == p) || latin.iter().any(|x| x == p) || rep.errors.contains_key(p)
    };
    for (p, e) in &rep.errors {
        if !broken.contains(p) && !latin.contains(p) {
            return viol("error", format!("{p}: {e}"));
        }
    }
    let mut known: BTreeSet<(String, usize, &str)> = BTreeSet::new();
    for (i, l) in lines.iter().enumerate() {
        if l.what != What::Def {
            continue;
        }
        let pkg = pkgs.iter().find(|p| p.root == l.root)?;
        let here = scope(l);
        let same: Vec<(usize, &Line)> = lines
            .iter()
            .enumerate()
            .filter(|(_, m)| m.root == l.root && m.name == l.name)
            .collect();
        let got = |rule: &str| {
            rep.found
                .get(&l.path)
                .is_some_and(|v| v.iter().any(|x| x.0 == at[i] && x.2 == rule))
        };
        let judged = checked(&l.path) && !unread(&l.path) && pkg.description;
        // Used?
        let exported = ns
            .iter()
            .any(|n| n.root == l.root && n.exports.contains(&l.name));
        let named = ns
            .iter()
            .any(|n| n.root == l.root && (n.text.contains(&l.name) || n.text.contains("\\d")));
        let seen = |m: &Line| match here {
            Scope::Top => true,
            s => s == scope(m),
        };
        let used = same.iter().find(|(_, m)| {
            seen(m) && m.what == What::Use
        });
        let mentioned = same
            .iter()
            .any(|(_, m)| m.what != What::Def || seen(m) && scope(m) != here)
            || lines
                .iter()
                .any(|m| m.root == l.root && m.name != l.name && has_word(&m.text, &l.name));
        if got("unused_function") {
            if let Some((_, u)) = used {
                return viol(
                    "used",
                    format!(
                        "{}: `{}` is reported as unused, but {} has {:?}",
                        l.path, l.name, u.path, u.text
                    ),
                );
            }
            if here == Scope::Top && pkg.namespace && exported {
                let n = ns
                    .iter()
                    .find(|n| n.root == l.root && n.exports.contains(&l.name))?;
                return viol(
                    "exported",
                    format!(
                        "{}: `{}` is reported as unused, but NAMESPACE has {:?}",
                        l.path, l.name, n.text
                    ),
                );
            }
            if here == Scope::Top && HOOKS.contains(&l.name.as_str()) {
                return viol("hook", format!("{}: `{}` is reported", l.path, l.name));
            }
            if l.path.starts_with("/w/") && sc.s("skip") == l.name {
                return viol("skipped", format!("{}: `{}` is reported", l.path, l.name));
            }
            cx.m.probe("unused functions reported");
        } else if judged
            && pkg.namespace
            && !mentioned
            && !(exported || named)
            && !l.name.contains('.')
            && sc.s("skip") != l.name
            && (here == Scope::Top || whole(&l.root) && here != Scope::Sub)
            && (here == Scope::Top
                || lines
                    .iter()
                    .any(|m| m.root == l.root && scope(m) == Scope::Top && checked(&m.path)))
        {
            return viol(
                "unused",
                format!(
                    "{}: nothing mentions `{}`, but it is not reported; arguments {given:?}",
                    l.path, l.name
                ),
            );
        } else if used.is_some() {
            cx.m.probe("used functions not reported");
        }
        // Defined before?
        let first = lines
            .iter()
            .enumerate()
            .filter(|(_, m)| {
                m.root == l.root
                    && m.name == l.name
                    && m.what == What::Def
                    && scope(m) == Scope::Top
            })
            .min_by(|a, b| (&a.1.path, at[a.0]).cmp(&(&b.1.path, at[b.0])));
        let dup = here == Scope::Top && first.is_some_and(|f| f.0 != i);
        if got("duplicated_function_definition") != dup && (judged || !dup) {
            return viol(
                "duplicate",
                format!(
                    "{}: `{}` is {}reported as duplicate; the first definition is in {:?}",
                    l.path,
                    l.name,
                    if dup { "not " } else { "" },
                    first.map(|f| &f.1.path)
                ),
            );
        }
        if dup && judged {
            cx.m.probe("duplicates reported");
        }
        if pkg.description {
            known.insert((l.path.clone(), at[i], "unused_function"));
            known.insert((l.path.clone(), at[i], "duplicated_function_definition"));
        }
    }
    for (p, v) in &rep.found {
        for f in v {
            if !known.contains(&(p.clone(), f.0, f.2.as_str())) {
                return viol(
                    "place",
                    format!("{p}: {f:?} is reported where no definition of a package is"),
                );
            }
        }
    }
    if pkgs.len() > 1 {
        cx.m.probe("several packages in one run");
    }
    None
}
