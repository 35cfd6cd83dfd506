//! All output formats report the same: C57.
use super::cli::*;
use crate::cligen::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C57",
        level: "exploration",
        quick: 6000,
        generate: gen57,
        eval: eval57,
        rule: "Trees of random R, R Markdown and Quarto files (any nesting of flagged code, with text before it on the line, any line endings, byte order marks, leading empty lines, wide and combining characters, unparsable and undecodable files) are checked or fixed in every output format and with --statistics, with and without colours and thresholds of the hint, under random schedules, thread counts and directory orders, with an output that takes few bytes at a time or is interrupted. Lines and columns are computed from the contents of the files; the formats must list the same findings in the same order, with the same messages and those places, the counts and hints of the summary and the statistics must be theirs, and the exit status the same. Then a format is used while another process replaces, empties or removes files, or reading a file fails at any of its reads: what is listed for each file must be the findings of one of its contents, each at its place there, and the counts those of what is listed.",
        assumptions: &[
            "Columns count Unicode scalar values; a byte order mark counts as one.",
            "Rules about packages are not part of this check (see C56).",
        ],
    }]
}

const FILES: &[&str] = &[
    "/w/a.R", "/w/b.R", "/w/c.Rmd", "/w/sub/d.R", "/w/sub/e.qmd", "/w/x y.R", "/w/né.R", "/w/[1].R",
    "/v/a.R",
];

fn text57(r: &mut Rng, path: &str) -> Bytes {
    if r.chance(1, 14) {
        return Bytes(b"any(is.na(x))\ny <- '\xff'\n".to_vec());
    }
    if r.chance(1, 14) {
        return format!("any(is.na(x))\n{}\n", r.pick(BROKEN)).into();
    }
    if r.chance(1, 12) {
        return r.pick(&["", "\n", "x <- 1\n", "# é"]).to_string().into();
    }
    let one = |r: &mut Rng| -> String {
        let mut s = String::new();
        if r.chance(1, 6) {
            s.push_str(*r.pick(&["\n", "\r\n", "\n\n", "\t", "  ", "\u{feff}", "\u{feff}\n"]));
        }
        for _ in 0..r.range(1, 3) {
            if r.chance(1, 3) {
                s.push_str(*r.pick(&[
                    "\"é\"; ",
                    "'日本語'; ",
                    "\"e\u{301}\u{200d}\"; ",
                    "\t",
                    "\"😀\" ; ",
                    "x <- 'a\nb\u{e9}'; ",
                    "f(\"\u{2028}\"); ",
                    "\"\r\"; ",
                    "\"\u{c}\"; ",
                ]));
            }
            s.push_str(&wild_text(r));
            if r.chance(1, 3) && !s.ends_with('\n') {
                s.push('\n');
            }
        }
        s
    };
    if !is_rmd(path) {
        return one(r).into();
    }
    let mut s = String::new();
    for _ in 0..r.range(0, 3) {
        s.push_str(*r.pick(&["", "\n", "# é\n", "Text `r x` 日\r\n", "---\na: b\n---\n"]));
        s.push_str(&format!(
            "```{{r}}\n{}\n```\n",
            one(r).trim_start_matches('\u{feff}').trim_end()
        ));
    }
    s.into()
}

fn gen57(r: &mut Rng, cx: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C57", "check");
    vary(r, &mut sc);
    let mut names = FILES.to_vec();
    r.shuffle(&mut names);
    names.truncate(r.range(1, 5) as usize);
    for n in &names {
        let t = text57(r, n);
        sc.file(n, t);
    }
    // Sometimes many findings.
    if r.chance(1, 10) {
        let n = r.range(10, 130);
        sc.file("/w/many.R", "any(is.na(x))\n".repeat(n as usize));
    }
    for d in ["/w", "/e", "/w/sub"] {
        sc.tree.insert(d.into(), Node::dir());
    }
    sc.cwd = r.pick(&["/w", "/w", "/w", "/", "/e", "/w/sub"]).to_string();
    let mut a = svec(&["check", "--allow-no-vcs"]);
    match r.below(8) {
        0 => a.push("--fix".into()),
        1 => a.extend(svec(&["--fix", "--unsafe-fixes"])),
        2 => a.push("--fix-only".into()),
        _ => {}
    }
    if r.chance(1, 2) {
        a.extend(svec(&["--select", "ALL"]));
    }
    let mut l = vec![];
    for _ in 0..r.range(1, 2) {
        l.push(match r.below(5) {
            0 | 1 => "/w".into(),
            2 if sc.cwd == "/w" => ".".to_string(),
            3 => r.pick(&names).to_string(),
            _ => r.pick(&["/w/sub", "/w/../w", "/w/sub/.."]).to_string(),
        });
    }
    if sc.tree.contains_key("/v/a.R") {
        l.push("/v".into());
    }
    sc.put("Lgiven", &l);
    sc.args = a;
    sc.put("colour", r.chance(1, 4));
    if r.chance(1, 4) {
        sc.put(
            "hint",
            r.pick(&["0", "1", "3", "100", "", "x", "-1", "15", "16"]),
        );
    }
    sc.put("fmt", r.pick(&["full", "full", "full", "concise", "github", "json", "statistics"]));
    if r.chance(1, 3) {
        sc.pipes.chunk = r.range(1, 300) as usize;
        sc.pipes.stdout_cap = *r.pick(&[16, 4096, 65536]);
    }
    if r.chance(1, 8) {
        sc.put("eintr", true);
    }
    if r.chance(2, 3) && !names.is_empty() {
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 2) {
                // Interrupted once, not for ever.
                let errno = *r.pick(&[
                    libc::EIO,
                    libc::EACCES,
                    libc::ENOENT,
                    libc::EINTR,
                    libc::EMFILE,
                    libc::ENOMEM,
                ]);
                let least = u32::from(errno == libc::EINTR);
                sc.faults.push(Fault {
                    op: r.pick(&["open", "read", "open", "read", "stat*"]).to_string(),
                    path: r.pick(&names).to_string(),
                    nth: least.max(r.below(5) as u32),
                    act: Act::Errno(errno),
                });
            }
        } else {
            let mut e = exec(&sc, &sc.s("fmt").to_string());
            e.faults.clear();
            let o = cx.reference(e);
            let nops = o.ops.len() as u64 + 2;
            let mut at: Vec<u64> = (0..r.range(1, 3))
                .map(|_| {
                    if r.chance(1, 2) {
                        nops - 1 - r.below(nops.min(6))
                    } else {
                        r.below(nops)
                    }
                })
                .collect();
            at.sort();
            let mut last = 0;
            for t in at {
                let p = r.pick(&names).to_string();
                let old = sc.tree.get(&p).map(|n| n.data.0.clone()).unwrap_or_default();
                let node = match r.below(10) {
                    0 => None,
                    1 => Some(Node::file("")),
                    2 => Some(Node::file(Bytes(vec![0xff; old.len()]))),
                    3 => Some(Node::file(Bytes(old[..old.len() / 2].to_vec()))),
                    4..=6 => {
                        let pre: &[u8] = *r.pick(&[
                            b"\n" as &[u8],
                            b"\n\n\n",
                            b"# a longer comment\n",
                            b"x; ",
                            "é\n".as_bytes(),
                        ]);
                        Some(Node::file(Bytes([pre, &old].concat())))
                    }
                    _ => Some(Node::file(text57(r, &p))),
                };
                sc.muts.push(Mutation {
                    wait: (t - last) as u32,
                    path: p,
                    node,
                });
                last = t;
            }
        }
    }
    sc.shrink = svec(&["tree", "lines"]);
    sc
}

/// The run of a scenario in one format.
fn exec(sc: &Scenario, fmt: &str) -> Exec {
    let mut a = sc.args.clone();
    if fmt == "statistics" {
        a.push("--statistics".into());
    } else {
        a.extend(svec(&["--output-format", fmt]));
    }
    a.extend(sc.get::<Vec<String>>("Lgiven").unwrap_or_default());
    let mut e = sc.cli(&a);
    if sc.b("colour") {
        e.env.remove("NO_COLOR");
    }
    if let Some(h) = sc.get::<String>("hint") {
        e.env.insert("JARL_N_VIOLATIONS_HINT_STAT".into(), h);
    }
    e
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Item {
    path: String,
    row: u64,
    col: u64,
    rule: String,
    msg: String,
}

/// Without colours and links.
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars().peekable();
    while let Some(x) = c.next() {
        if x != '\x1b' {
            o.push(x);
            continue;
        }
        match c.next() {
            Some('[') => {
                for y in c.by_ref() {
                    if y.is_ascii_alphabetic() {
                        break;
                    }
                }
            }
            Some(']') => {
                while let Some(y) = c.next() {
                    if y == '\x1b' && c.peek() == Some(&'\\') {
                        c.next();
                        break;
                    }
                }
            }
            _ => {}
        }
    }
    o
}
fn place(s: &str) -> Option<(u64, u64)> {
    let (a, b) = s.split_once(':')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

/// Findings listed in the output, their number according to the summary, and
/// the rest of the summary.
fn listed(fmt: &str, text: &str, cwd: &str) -> Option<(Vec<Item>, String)> {
    let text = plain(text);
    let (body, summary) = match text.find("── Summary ──") {
        Some(i) if matches!(fmt, "full" | "concise") => (&text[..i], &text[i..]),
        _ => (&text[..], ""),
    };
    let mut v: Vec<Item> = vec![];
    let lines: Vec<&str> = body.split('\n').collect();
    for (i, l) in lines.iter().enumerate() {
        let x = match fmt {
            "concise" => l.match_indices(" [").find_map(|(k, _)| {
                let (at, rest) = l[k + 2..].split_once("] ")?;
                let (row, col) = place(at)?;
                let (rule, msg) = rest.split_once(' ')?;
                Some(Item {
                    path: abs(cwd, &l[..k]),
                    row,
                    col,
                    rule: rule.into(),
                    msg: msg.into(),
                })
            }),
            "github" => l.strip_prefix("::warning title=Jarl (").and_then(|t| {
                let (rule, t) = t.split_once("),file=")?;
                let (path, t) = t.split_once(",line=")?;
                let (row, t) = t.split_once(",col=")?;
                let (col, t) = t.split_once("::")?;
                let t = t.strip_prefix(&format!("{path}:{row}:{col} [{rule}] "))?;
                Some(Item {
                    path: abs(cwd, path),
                    row: row.parse().ok()?,
                    col: col.parse().ok()?,
                    rule: rule.into(),
                    msg: t.into(),
                })
            }),
            "full" => l.strip_prefix("warning: ").and_then(|rule| {
                let t = lines.get(i + 1)?.trim_start().strip_prefix("--> ")?;
                let mut k = t.rsplitn(3, ':');
                let col = k.next()?.parse().ok()?;
                let row = k.next()?.parse().ok()?;
                let path = abs(cwd, k.next()?);
                let n = lines[i + 2..]
                    .iter()
                    .position(|l| l.starts_with("warning: "))
                    .unwrap_or(lines.len() - i - 2);
                Some(Item {
                    path,
                    row,
                    col,
                    rule: rule.into(),
                    msg: lines[i + 2..i + 2 + n].join("\n"),
                })
            }),
            _ => None,
        };
        v.extend(x);
    }
    if fmt == "json" {
        let j: Value = serde_json::from_str(&text).ok()?;
        for d in j["diagnostics"].as_array()? {
            let b = d["message"]["body"].as_str()?;
            v.push(Item {
                path: abs(cwd, d["filename"].as_str()?),
                row: d["location"]["row"].as_u64()?,
                col: d["location"]["column"].as_u64()? + 1,
                rule: d["message"]["name"].as_str()?.into(),
                msg: match d["message"]["suggestion"].as_str() {
                    Some(s) => format!("{b} {s}"),
                    None => b.into(),
                },
            });
        }
    }
    Some((v, summary.into()))
}
/// Number of findings the summary states.
fn stated(summary: &str) -> Option<usize> {
    let l = summary.lines().find(|l| l.starts_with("Found "))?;
    l.split(' ').nth(1)?.parse().ok()
}
/// The same finding? Messages are compared as far as the format shows them.
fn same(fmt: &str, got: &Item, want: &Item, bodies: &str) -> bool {
    let at = |i: &Item| (i.path.clone(), i.row, i.col, i.rule.clone());
    let head = |s: &str| s.lines().next().unwrap_or("").trim_end().to_string();
    at(got) == at(want)
        && match fmt {
            "full" => got.msg.contains(&head(bodies)),
            _ => head(&got.msg) == head(&want.msg),
        }
}
/// Row and column, from the content.
fn row_col(t: &[u8], at: usize) -> Option<(u64, u64)> {
    let s = std::str::from_utf8(t.get(..at)?).ok()?;
    let line = s.rfind('\n').map_or(0, |i| i + 1);
    Some((
        1 + s.matches('\n').count() as u64,
        1 + s[line..].chars().count() as u64,
    ))
}

fn eval57(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let t0 = &sc.tree;
    if sc.get::<Vec<String>>("Lgiven")?.is_empty() {
        return None;
    }
    let o = cx.reference(exec(sc, "json"));
    if let Some(v) = ended(&o) {
        return Some(v);
    }
    if o.stdout.str().contains("No R files found") {
        return None;
    }
    let text = o.stdout.str().into_owned();
    let (Some((want, _)), Ok(j)) = (
        listed("json", &text, &sc.cwd),
        serde_json::from_str::<Value>(&text),
    ) else {
        return viol(
            "report",
            format!("{} {}", clip(&text, 300), clip(&o.stderr.str(), 300)),
        );
    };
    let ds = j["diagnostics"].as_array()?;
    let mut late = None;
    for (d, w) in ds.iter().zip(&want) {
        let n = o.tree.get(&w.path)?;
        let at = d["range"][0].as_u64()? as usize;
        let Some(p) = row_col(&n.data.0, at) else {
            return viol("range", format!("{w:?} starts at {at} of {:?}", n.data));
        };
        if p == (w.row, w.col) {
            continue;
        }
        // A file that starts with an empty line: see known findings.
        if n.data.0.starts_with(b"\n") && p.0 == 2 && (p.0, p.1 + 1) == (w.row, w.col) {
            late = late.or(viol(
                "leading-newline",
                format!("{w:?} is at {p:?} of {:?}", n.data),
            ));
            continue;
        }
        return viol("place", format!("{w:?} is at {p:?} of {:?}", n.data));
    }
    let (st, tree) = (code(&o), &o.tree);
    let count = |f: &dyn Fn(&Snip) -> bool| {
        ds.iter()
            .filter(|d| {
                d["fix"]["to_skip"] == false
                    && d["fix"]["content"].as_str() != Some("")
                    && SNIPS
                        .iter()
                        .any(|s| Some(s.rule) == d["message"]["name"].as_str() && f(s))
            })
            .count()
    };
    let unknown = ds
        .iter()
        .any(|d| !SNIPS.iter().any(|s| Some(s.rule) == d["message"]["name"].as_str()));
    let safe = count(&|s| s.fix.is_some() && s.safe);
    let uns = count(&|s| s.fix.is_some() && !s.safe);
    let errors = j["errors"].as_array()?.len();
    let limit: i64 = sc
        .get::<String>("hint")
        .and_then(|h| h.parse().ok())
        .unwrap_or(15);
    for fmt in ["full", "concise", "github", "json", "statistics"] {
        let mut e = exec(sc, fmt);
        e.pipes = sc.pipes.clone();
        if sc.b("eintr") {
            e.faults = ["write", "read"]
                .iter()
                .map(|op| Fault {
                    op: op.to_string(),
                    path: "*".into(),
                    nth: 1,
                    act: Act::Errno(libc::EINTR),
                })
                .collect();
        }
        let o = cx.run(e);
        if let Some(v) = ended(&o) {
            return Some(v);
        }
        let text = o.stdout.str().into_owned();
        let show = |m: String| format!("{fmt}: {m}; output {}", clip(&plain(&text), 900));
        if code(&o) != st {
            return viol("status", show(format!("status {} but {st} with json", code(&o))));
        }
        if let Some(d) = tree_diff(tree, &o.tree, |_| true) {
            return viol("tree", show(d));
        }
        if fmt == "statistics" {
            let mut n: BTreeMap<&str, (usize, bool)> = BTreeMap::new();
            for d in ds {
                let rule = d["message"]["name"].as_str()?;
                let x = n.entry(rule).or_default();
                x.0 += 1;
                x.1 |= d["fix"]["to_skip"] == false
                    && d["fix"]["content"].as_str() != Some("")
                    && SNIPS
                        .iter()
                        .any(|s| s.rule == rule && s.fix.is_some() && s.safe);
            }
            let mut got = vec![];
            for l in plain(&text).lines() {
                let Some((k, t)) = l.split_once(" [") else {
                    continue;
                };
                if let (Ok(k), Some((star, rule))) = (k.trim().parse::<usize>(), t.split_once("] "))
                {
                    got.push((rule.to_string(), k, star == "*"));
                }
            }
            let mut exp: Vec<_> = n
                .iter()
                .map(|(k, v)| (k.to_string(), v.0, v.1))
                .collect();
            let star = |v: &mut Vec<(String, usize, bool)>| {
                for x in v.iter_mut() {
                    if !SNIPS.iter().any(|s| s.rule == x.0) {
                        x.2 = false;
                    }
                }
                let sorted = v.windows(2).all(|w| w[0].1 >= w[1].1);
                v.sort();
                sorted
            };
            star(&mut exp);
            if !star(&mut got) || got != exp {
                return viol("statistics", show(format!("{got:?} instead of {exp:?}")));
            }
            if exp.is_empty() && errors == 0 && !text.contains("All checks passed!") {
                return viol("passed", show("no findings".into()));
            }
            continue;
        }
        let Some((got, sum)) = listed(fmt, &text, &sc.cwd) else {
            return viol("report", show("no report".into()));
        };
        let bodies: Vec<&str> = ds
            .iter()
            .filter_map(|d| d["message"]["body"].as_str())
            .collect();
        let shift = |i: &Item| {
            // Columns in files that start with an empty line.
            fmt == "full"
                && i.row == 2
                && tree.get(&i.path).is_some_and(|n| n.data.0.starts_with(b"\n"))
        };
        for (i, w) in want.iter().enumerate() {
            let mut w = w.clone();
            if shift(&w) {
                w.col -= 1;
            }
            match got.get(i) {
                Some(g) if same(fmt, g, &w, bodies[i]) => {}
                g => return viol("listed", show(format!("{g:?} instead of {w:?} ({})", bodies[i]))),
            }
        }
        if got.len() > want.len() {
            return viol("more", show(format!("{:?} is not reported with json", got.last())));
        }
        if matches!(fmt, "full" | "concise") {
            if stated(&sum).unwrap_or(0) != want.len() {
                return viol("count", show(format!("{} findings", want.len())));
            }
            let all = plain(&text);
            if all.contains("All checks passed!") != (want.is_empty() && errors == 0) {
                return viol("passed", show(format!("{} findings", want.len())));
            }
            if all.contains("errors reported, use `--statistics`")
                != (!want.is_empty() && want.len() as i64 > limit)
            {
                return viol("hint", show(format!("{} findings, limit {limit}", want.len())));
            }
            let fixable = if safe > 0 && uns == 0 {
                format!("\n{safe} fixable with the `--fix` option.\n")
            } else if safe > 0 {
                let s = if uns == 1 { "" } else { "es" };
                format!("\n{safe} fixable with the `--fix` option ({uns} hidden fix{s} can be")
            } else if uns > 0 {
                let s = if uns == 1 { " is" } else { "es are" };
                format!("\n{uns} fix{s} available with")
            } else {
                String::new()
            };
            if !unknown
                && (!sum.contains(&fixable)
                    || fixable.is_empty() && (sum.contains("fixable") || sum.contains("available")))
            {
                return viol("fixable", show(format!("{safe} safe and {uns} unsafe fixes")));
            }
        }
        if !want.is_empty() {
            cx.m.probe(&format!("{fmt} lists the same"));
        }
    }
    if sc.faults.is_empty() && sc.muts.is_empty() {
        return late;
    }
    // Disturbed.
    let fmt = sc.s("fmt").to_string();
    let mut e = exec(sc, &fmt);
    e.faults = sc.faults.clone();
    if !sc.muts.is_empty() {
        e.actor = Actor::Mutator(sc.muts.clone());
    }
    let fix = sc.args.iter().any(|a| a.starts_with("--fix"));
    let od = cx.run(e);
    if let Some(v) = ended(&od) {
        return Some(v);
    }
    let text = od.stdout.str().into_owned();
    if fmt == "statistics" || fix || text.contains("No R files found") {
        return late;
    }
    let Some((got, sum)) = listed(&fmt, &text, &sc.cwd) else {
        return viol(
            "report",
            format!("{} {}", clip(&text, 300), clip(&od.stderr.str(), 300)),
        );
    };
    let show = |m: String| {
        format!(
            "{fmt}: {m}; output {}; error output {}",
            clip(&plain(&text), 900),
            clip(&od.stderr.str(), 300)
        )
    };
    if matches!(fmt.as_str(), "full" | "concise") && stated(&sum).unwrap_or(0) != got.len() {
        return viol("count", show(format!("{} findings are listed", got.len())));
    }
    // Findings of every content a file had.
    let mut alts: BTreeMap<String, Vec<(Vec<u8>, Vec<Item>)>> = BTreeMap::new();
    let mut gone: BTreeSet<String> = BTreeSet::new();
    let put = |alts: &mut BTreeMap<String, Vec<(Vec<u8>, Vec<Item>)>>, t: &Tree, v: &[Item]| {
        for (p, n) in t {
            if n.kind == Kind::File {
                let l: Vec<Item> = v
                    .iter()
                    .filter(|i| i.path == *p)
                    .cloned()
                    .map(|mut i| {
                        if fmt == "full" && i.row == 2 && n.data.0.starts_with(b"\n") {
                            i.col -= 1;
                        }
                        i
                    })
                    .collect();
                alts.entry(p.clone()).or_default().push((n.data.0.clone(), l));
            }
        }
    };
    put(&mut alts, t0, &want);
    let mut t = t0.clone();
    for m in &sc.muts {
        let Some(n) = &m.node else {
            t.remove(&m.path);
            gone.insert(m.path.clone());
            continue;
        };
        t.insert(m.path.clone(), n.clone());
        let mut e = exec(sc, "json");
        e.tree = t.clone();
        let o = cx.reference(e);
        let (v, _) = listed("json", &o.stdout.str(), &sc.cwd)?;
        put(&mut alts, &t, &v);
    }
    let err = od.stderr.str();
    let named: BTreeSet<String> = serde_json::from_str::<Value>(&text)
        .ok()
        .and_then(|j| {
            let l = j["errors"].as_array()?.clone();
            Some(l.iter().filter_map(|e| Some(abs(&sc.cwd, e["file"].as_str()?))).collect())
        })
        .unwrap_or_default();
    let hit = |p: &str| {
        let name = p.rsplit('/').next().unwrap_or(p);
        err.contains(name) || named.contains(p)
    };
    for p in got.iter().map(|i| &i.path) {
        if !alts.contains_key(p) {
            return viol("stray", show(format!("findings in {p}")));
        }
    }
    for (p, vs) in &alts {
        let l: Vec<&Item> = got.iter().filter(|i| i.path == *p).collect();
        let fits = |(t, v): &(Vec<u8>, Vec<Item>)| {
            v.len() == l.len()
                && v.iter().zip(&l).all(|(w, g)| {
                    // Without the code, the place is the one of the other formats.
                    let off = fmt == "full" && w.row == 2 && t.starts_with(b"\n");
                    (w.row, &w.rule) == (g.row, &g.rule)
                        && (w.col == g.col || off && w.col + 1 == g.col)
                        && (fmt == "full" || w.msg.lines().next() == g.msg.lines().next())
                })
        };
        if vs.iter().any(fits) {
            if vs.len() > 1 {
                cx.m.probe("findings of one content");
            }
            continue;
        }
        // Not there, or could not be read, when it was checked.
        if l.is_empty() && (!t0.contains_key(p) || gone.contains(p) || hit(p) || fmt == "github" && code(&od) == 255) {
            continue;
        }
        let v: Vec<_> = vs.iter().map(|v| &v.1).collect();
        return viol("torn", show(format!("{p}: {l:?} fits none of {v:?}")));
    }
    late
}
