//! What answers depend on: C05, C11, C12.
use super::lsp::*;
use crate::client::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            level: "exploration",
            quick: 2500,
            generate: gen05,
            eval: eval05,
            rule: "Sessions with several documents of one project (package or not, with configurations), edited, saved, closed and queried in any order under random schedules, worker counts, hash seeds and directory orders; every published set and every code-action answer is compared with that of a fresh session that only ever saw this document at this version.",
            assumptions: &["Files on disk do not change during these sessions (C11 changes them)."],
        },
        Check {
            id: "C11",
            level: "exploration",
            quick: 2000,
            generate: gen11,
            eval: eval11,
            rule: "Sessions during which configuration, DESCRIPTION and sibling files change on disk, are broken, removed and repaired, with saves and requests after (or racing with) the changes; every answer is compared with that of a fresh session on the tree of that moment, or, when racing, of some moment between the save and the answer.",
            assumptions: &[
                "In racing cases only one file changes, since a reader of several files may see a combination that never existed at once.",
            ],
        },
        Check {
            id: "C12",
            level: "exploration",
            quick: 2500,
            generate: gen12,
            eval: eval12,
            rule: "Projects with nested configurations, exclusions, packages, R Markdown: every file is opened and saved in the server under a random schedule, and the whole project is checked by the command line; both must report the same findings per file.",
            assumptions: &[
                "Exclusion patterns are restricted to those whose meaning is the same in the stand-in of the ignore crate and in the real one.",
            ],
        },
    ]
}

// -------------------------------------------------------------------- C05
fn gen05(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C05", "isolation");
    vary(r, &mut sc);
    let docs = project(r, &mut sc, true);
    let ops = session(
        r,
        &docs,
        &SessOpt {
            min: 4,
            max: 18,
            garbage: true,
            disk: false,
            apply: true,
        },
    );
    let mut s = script(docs.iter().map(|d| docspec(d)).collect(), encodings(r), ops);
    // Many clients count versions from one again when a document is opened anew.
    s.restart_versions = r.chance(1, 3);
    sc.script = Some(s);
    sc.shrink = vec!["script".into(), "tree".into(), "lines".into()];
    sc
}
fn strip_id(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("id");
    }
    v
}
enum Place {
    Inside,
    Touches,
    Outside,
}
fn places(d: &Value, want: &Value) -> Place {
    let at = |v: &Value| (v["line"].as_u64(), v["character"].as_u64());
    let (a, b) = (at(&d["start"]), at(&d["end"]));
    let (x, y) = (at(&want["start"]), at(&want["end"]));
    if b < x || y < a {
        Place::Outside
    } else if a < y && x < b {
        Place::Inside
    } else {
        Place::Touches
    }
}
fn eval05(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let mut s = sc.script.clone()?;
    if s.restart_versions {
        // Everything is said about a document before it is closed, so that a version
        // number belongs to one text.
        let mut ops = vec![];
        for op in s.ops {
            if matches!(op, COp::Close { .. }) {
                ops.push(COp::Sleep { ms: 60_000 });
            }
            ops.push(op);
        }
        s.ops = ops;
    }
    close_session(&mut s.ops);
    let o = cx.run(sc.lsp(&s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let mut n = 0;
    let mut oracle = Oracle::new();
    // All questions about one text are asked in one fresh session.
    let mut groups: BTreeMap<(String, String), (Vec<usize>, Vec<usize>)> = BTreeMap::new();
    for (i, p) in h.pubs.iter().enumerate() {
        let Some(v) = p.version else { continue };
        let Some(d) = h.text_before(&p.uri, v, p.seq) else {
            return viol(
                "version",
                format!(
                    "diagnostics for version {v} of {}, which never existed",
                    p.uri
                ),
            );
        };
        groups
            .entry((p.uri.clone(), d.text.clone()))
            .or_default()
            .0
            .push(i);
    }
    for (i, q) in h.reqs.iter().enumerate() {
        if q.method != "textDocument/codeAction" || q.resp.is_empty() {
            continue;
        }
        let Some(t) = &q.text else { continue };
        let uri = q.params["textDocument"]["uri"]
            .as_str()
            .unwrap_or("")
            .to_string();
        groups.entry((uri, t.clone())).or_default().1.push(i);
    }
    for ((uri, text), (pubs, acts)) in &groups {
        let path = s.docs.iter().map(|d| &d.path).find(|p| uri_of(p) == *uri)?;
        let mut params: Vec<Value> = acts.iter().map(|&i| h.reqs[i].params.clone()).collect();
        if !params.is_empty() {
            params.push(json!({
                "textDocument": {"uri": uri},
                "range": {"start": {"line": 0, "character": 0}, "end": {"line": 1_000_000, "character": 0}},
                "context": {"diagnostics": []},
            }));
        }
        // What is on disk for the document itself must not matter.
        let mut tree = sc.tree.clone();
        if let Some(n) = tree.get_mut(path) {
            n.data = Bytes(text.clone().into_bytes());
        }
        let (d, a) = oracle.ask(cx, sc, &tree, path, text, &s.encodings, &params);
        for &i in pubs {
            n += 1;
            let got = &h.pubs[i].diags;
            match &d {
                None => {
                    return viol(
                        "diagnostics",
                        format!(
                            "{uri}: diagnostics published for a text about which a fresh session publishes nothing: {}; text {:?}",
                            clip(&got.to_string(), 300),
                            clip(text, 300)
                        ),
                    );
                }
                Some(w) if w != got => {
                    return viol(
                        "diagnostics",
                        format!(
                            "{uri}: published {} where a fresh session publishes {}; text {:?}",
                            clip(&got.to_string(), 500),
                            clip(&w.to_string(), 500),
                            clip(text, 300)
                        ),
                    );
                }
                _ => {}
            }
        }
        for (k, &i) in acts.iter().enumerate() {
            n += 1;
            let got = strip_id(h.reqs[i].resp[0].1.clone());
            // A request for a part is answered with what belongs to the part.
            if let (Some(x), Some(all)) = (
                got["result"].as_array(),
                a.last().and_then(|v| v["result"].as_array()),
            ) {
                let want = &h.reqs[i].params["range"];
                let wrong = all
                    .iter()
                    .find(|y| match places(&y["diagnostics"][0]["range"], want) {
                        Place::Inside => !x.contains(y),
                        Place::Outside => x.contains(y),
                        Place::Touches => false,
                    })
                    .or_else(|| x.iter().find(|y| !all.contains(y)));
                if let Some(y) = wrong {
                    return viol(
                        "part",
                        format!(
                            "{uri}: the answer for {want} differs from the part of the answer for the whole document in {}; text {:?}",
                            clip(&y.to_string(), 400),
                            clip(text, 300)
                        ),
                    );
                }
            }
            let w = a.get(k).cloned().unwrap_or(Value::Null);
            if got != w {
                return viol(
                    "actions",
                    format!(
                        "{uri}: code action answer {} where a fresh session answers {}; text {:?}",
                        clip(&got.to_string(), 600),
                        clip(&w.to_string(), 600),
                        clip(text, 300)
                    ),
                );
            }
        }
    }
    if n > 1 {
        cx.m.probe("answers compared with a fresh session");
    }
    None
}

// -------------------------------------------------------------------- C11
const CFGS: &[&str] = &[
    "/w/jarl.toml",
    "/w/s/jarl.toml",
    "/w/.jarl.toml",
    "/w/R/jarl.toml",
    "/jarl.toml",
    "/home/u/.config/jarl/jarl.toml",
];
fn cfg_node(r: &mut Rng) -> Option<Node> {
    match r.below(10) {
        0 | 1 => None,
        2 => Some(Node::file(*r.pick(BAD_TOML))),
        3 => Some(Node::file("")),
        4 => Some(Node {
            kind: Kind::File,
            data: Bytes(vec![0xff, 0xfe, b'\n']),
            mode: 0o644,
        }),
        _ => Some(Node::file(toml(r))),
    }
}
fn gen11(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let racing = r.chance(1, 4);
    let mut sc = Scenario::new("C11", if racing { "racing" } else { "settled" });
    vary(r, &mut sc);
    let docs = project(r, &mut sc, true);
    let nd = docs.len();
    let mut ops = vec![];
    for (d, p) in docs.iter().enumerate() {
        ops.push(COp::Open {
            doc: d,
            text: doc_text(r, p, true, 5),
        });
    }
    if racing {
        let p = *r.pick(&CFGS[..4]);
        for _ in 0..r.range(2, 8) {
            let d = r.us(nd);
            match r.below(5) {
                0 | 1 => {
                    let node = cfg_node(r);
                    ops.push(COp::Disk {
                        path: p.into(),
                        node,
                    });
                }
                2 => ops.push(COp::Action {
                    doc: d,
                    a: 0,
                    len: 0,
                    all: true,
                }),
                _ => {
                    ops.push(COp::Edit {
                        doc: d,
                        edits: vec![EditSpec {
                            full: true,
                            ..edit(0, 0, &doc_text(r, &docs[d], true, 4))
                        }],
                    });
                    ops.push(COp::Save {
                        doc: d,
                        disk: false,
                    });
                }
            }
        }
    } else {
        for _ in 0..r.range(2, 6) {
            for _ in 0..r.below(3) {
                let (path, node) = match r.below(8) {
                    0 => (
                        "/w/DESCRIPTION".to_string(),
                        Some(Node::file(*r.pick(&[
                            "Package: p\n",
                            "Package: p\nDepends: R (>= 4.5.0)\n",
                            "Depends: R (>= 3.0)\n",
                            "Depends: R (>= x)\n",
                        ]))),
                    ),
                    1 => (
                        "/w/NAMESPACE".to_string(),
                        Some(Node::file(format!("export(fn{})\n", r.below(6)))),
                    ),
                    2 => {
                        let p = *r.pick(&["/w/R/a.R", "/w/R/b.R", "/w/R/zz.R"]);
                        (
                            p.to_string(),
                            if r.chance(1, 4) {
                                None
                            } else {
                                Some(Node::file(doc_text(r, p, true, 2)))
                            },
                        )
                    }
                    _ => (r.pick(CFGS).to_string(), cfg_node(r)),
                };
                ops.push(COp::Disk { path, node });
            }
            for _ in 0..r.range(1, 2) {
                let d = r.us(nd);
                match r.below(4) {
                    0 => {
                        ops.push(COp::Close { doc: d });
                        ops.push(COp::Open {
                            doc: d,
                            text: doc_text(r, &docs[d], true, 4),
                        });
                        ops.push(COp::Save {
                            doc: d,
                            disk: false,
                        });
                    }
                    1 => ops.push(COp::Action {
                        doc: d,
                        a: 0,
                        len: 0,
                        all: true,
                    }),
                    _ => ops.push(COp::Save {
                        doc: d,
                        disk: false,
                    }),
                }
            }
        }
    }
    sc.script = Some(script(
        docs.iter().map(|d| docspec(d)).collect(),
        encodings(r),
        ops,
    ));
    sc.shrink = vec!["script".into(), "tree".into()];
    sc
}
fn apply_disk(t: &mut Tree, path: &str, node: &Option<Node>) {
    match node {
        Some(n) => {
            t.insert(path.into(), n.clone());
        }
        None => {
            t.remove(path);
            let pre = format!("{path}/");
            t.retain(|k, _| !k.starts_with(&pre));
        }
    }
}
fn eval11(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let mut s = sc.script.clone()?;
    if sc.kind == "settled" {
        let mut v = vec![];
        for op in s.ops {
            let wait = matches!(op, COp::Save { .. } | COp::Action { .. } | COp::Open { .. });
            v.push(op);
            if wait {
                v.push(COp::Sync);
                v.push(COp::Sleep { ms: 100 });
            }
        }
        s.ops = v;
    }
    close_session(&mut s.ops);
    let o = cx.run(sc.lsp(&s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let racing = sc.kind == "racing";
    // The trees, and from which event on they held.
    let mut trees: Vec<(u64, Tree)> = vec![(0, sc.tree.clone())];
    for (seq, i) in &h.disks {
        if let Some(COp::Disk { path, node }) = s.ops.get(*i) {
            let mut t = trees.last().unwrap().1.clone();
            apply_disk(&mut t, path, node);
            trees.push((*seq, t));
        }
    }
    // Trees that held at some time between two events.
    let between = |a: u64, b: u64| -> Vec<&Tree> {
        let first = trees.iter().rposition(|x| x.0 < a).unwrap_or(0);
        trees[first..]
            .iter()
            .enumerate()
            .filter(|(i, x)| *i == 0 || x.0 < b)
            .map(|(_, x)| &x.1)
            .collect()
    };
    let mut oracle = Oracle::new();
    let mut n = 0;
    for (i, sv) in h.docs.iter().enumerate().filter(|(_, d)| d.what == "save") {
        let path = s
            .docs
            .iter()
            .map(|d| &d.path)
            .find(|p| uri_of(p) == sv.uri)?;
        // The next save of the same document bounds the answer.
        let next = h.docs[i + 1..]
            .iter()
            .find(|d| d.uri == sv.uri && (d.what == "save" || d.what == "open"))
            .map(|d| d.seq)
            .unwrap_or(u64::MAX);
        let got = h.pubs.iter().find(|p| {
            p.uri == sv.uri
                && p.version == Some(sv.version)
                && p.seq > sv.seq
                && (racing || p.seq < next)
        });
        let mut wants = vec![];
        for t in between(
            sv.seq,
            if racing {
                got.map(|g| g.seq).unwrap_or(u64::MAX)
            } else {
                sv.seq
            },
        ) {
            wants.push(oracle.ask(cx, sc, t, path, &sv.text, &s.encodings, &[]).0);
        }
        n += 1;
        match got {
            None if racing || wants.contains(&None) => {}
            None => {
                return viol(
                    "missing",
                    format!(
                        "{}: nothing published after the save of version {} with the configuration of that moment; expected {}",
                        sv.uri,
                        sv.version,
                        clip(&wants[0].clone().unwrap().to_string(), 300)
                    ),
                );
            }
            Some(g) => {
                if !wants.iter().any(|w| w.as_ref() == Some(&g.diags)) {
                    return viol(
                        "diagnostics",
                        format!(
                            "{} version {}: published {} but under the project on disk it is {}",
                            sv.uri,
                            sv.version,
                            clip(&g.diags.to_string(), 400),
                            clip(&format!("{wants:?}"), 800)
                        ),
                    );
                }
            }
        }
    }
    if !racing {
        for q in h
            .reqs
            .iter()
            .filter(|q| q.method == "textDocument/codeAction")
        {
            let (Some(text), Some((_, resp))) = (&q.text, q.resp.first()) else {
                continue;
            };
            let uri = q.params["textDocument"]["uri"].as_str().unwrap_or("");
            let path = s.docs.iter().map(|d| &d.path).find(|p| uri_of(p) == uri)?;
            let t = between(q.seq, q.seq)[0];
            let (_, a) = oracle.ask(cx, sc, t, path, text, &s.encodings, &[q.params.clone()]);
            n += 1;
            if Some(&strip_id(resp.clone())) != a.first() {
                return viol(
                    "actions",
                    format!(
                        "{uri}: code actions {} but under the project on disk {}",
                        clip(&resp.to_string(), 500),
                        clip(&format!("{a:?}"), 500)
                    ),
                );
            }
        }
    }
    if n > 1 && trees.len() > 1 {
        cx.m.probe("answers compared after changes on disk");
    }
    None
}

// -------------------------------------------------------------------- C12
fn gen12(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C12", "agreement");
    vary(r, &mut sc);
    project(r, &mut sc, true);
    for p in [
        "/w/renv/activate.R",
        "/w/R/import-standalone-x.R",
        "/w/R/cpp11.R",
        "/w/sub/b.R",
        "/w/s/a1.R",
        "/w/packrat/p.R",
        "/w/R/extendr-wrappers.R",
        "/w/x.r",
        "/w/y.qmd",
        "/w/z.Rmd",
    ] {
        if r.chance(1, 5) {
            let t = doc_text(r, p, false, 3);
            sc.file(p, t);
        }
    }
    if r.chance(1, 6) {
        let p = "/w/s/broken.R";
        sc.file(p, *r.pick(BROKEN));
    }
    if sc.tree.contains_key("/w/DESCRIPTION") {
        if r.chance(1, 4) {
            let p = *r.pick(&["/w/R/b.R", "/w/R/z.R", "/w/tests/testthat/test-a.R"]);
            let t = format!("{}{}", fun_defs(r, 3), r.pick(BROKEN));
            sc.file(p, t);
        }
        if r.chance(1, 4) {
            let t = corr_toml(r);
            sc.file(*r.pick(&["/w/R/jarl.toml", "/w/tests/jarl.toml"]), t);
        }
    }
    // A package whose functions are used here and there, and were used elsewhere before.
    if r.chance(1, 6) {
        let mut l: Vec<(String, Option<String>)> = vec![];
        sc.file("/w/DESCRIPTION", "Package: p\n");
        sc.file("/w/NAMESPACE", "export(fn0)\n");
        sc.file("/w/jarl.toml", "[lint]\nextend-select = [\"unused_function\"]\n");
        for p in [
            "/w/R/a.R",
            "/w/R/zy.R",
            "/w/R/unix/u.R",
            "/w/tests/t.R",
            "/w/tests/testthat/test-a.R",
            "/w/tests/testthat/test-z.R",
            "/w/inst/tinytest/t.R",
            "/w/inst/tinytest/t2.R",
            "/w/src/a.c",
            "/w/src/b.c",
            "/w/src/b.h",
        ] {
            let one = |r: &mut Rng| {
                let mut t = String::new();
                if p == "/w/R/a.R" {
                    t.push_str(&fun_defs(r, 8));
                }
                for _ in 0..r.below(2) {
                    t.push_str(&format!("fn{}(x);\n", r.below(6)));
                }
                t
            };
            if r.chance(2, 3) {
                let t = one(r);
                sc.file(p, t);
            }
            match r.below(6) {
                0 => l.push((p.into(), None)),
                1 | 2 => l.push((p.into(), Some(one(r)))),
                _ => {}
            }
        }
        sc.put("Lbefore", &l);
    } else if r.chance(1, 3) {
        let mut l: Vec<(String, Option<String>)> = vec![];
        let mut all: Vec<String> = sc.tree.keys().filter(|p| p.starts_with("/w/")).cloned().collect();
        all.retain(|p| sc.tree[p].kind == Kind::File);
        all.extend(crate::cligen::svec(&["/w/jarl.toml", "/w/R/zz.R", "/w/R/jarl.toml", "/w/NAMESPACE"]));
        for _ in 0..r.range(1, 5) {
            let mut p = r.pick(&all).clone();
            if sc.tree.contains_key("/w/DESCRIPTION") && r.chance(1, 3) {
                p = r
                    .pick(&[
                        "/w/tests/testthat/test-a.R",
                        "/w/tests/t.R",
                        "/w/inst/tinytest/t.R",
                        "/w/src/a.c",
                        "/w/R/zy.R",
                    ])
                    .to_string();
                if !sc.tree.contains_key(&p) && r.chance(1, 2) {
                    let t = (0..r.range(1, 5)).map(|_| format!("fn{}(x);\n", r.below(6)));
                    sc.file(&p, t.collect::<String>());
                }
            }
            let text = match p.rsplit('/').next().unwrap() {
                "DESCRIPTION" => Some("Package: p\nDepends: R (>= 4.5.0)\n".to_string()),
                "NAMESPACE" => Some(format!("export(fn{})\n", r.below(6))),
                n if n.ends_with(".toml") => Some(corr_toml(r)),
                n if n.ends_with(".c") => Some(format!("fn{}(x);\n", r.below(6))),
                n if n.ends_with(".R") => {
                    Some(format!("{}{}", fun_defs(r, 4), doc_text(r, &p, false, 2)))
                }
                _ => None,
            };
            let gone = r.chance(1, 2) && sc.tree.contains_key(&p);
            l.push((p, text.filter(|_| !gone)));
        }
        sc.put("Lbefore", &l);
    }
    sc.put("enc", encodings(r));
    sc.shrink = vec!["tree".into(), "lines".into()];
    sc
}
type Found = Vec<(usize, usize, String, String)>;
fn eval12(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let encs: Vec<String> = sc.get("enc").unwrap_or_default();
    let paths: Vec<String> = sc
        .tree
        .iter()
        .filter(|(p, n)| {
            n.kind == Kind::File
                && p.starts_with("/w/")
                && [".R", ".r", ".Rmd", ".qmd"].iter().any(|x| p.ends_with(x))
        })
        .map(|(p, _)| p.clone())
        .collect();
    if paths.is_empty() {
        return None;
    }
    let c = cx.reference(sc.cli(&[
        "check".into(),
        ".".into(),
        "--output-format".into(),
        "json".into(),
    ]));
    let js: Value = serde_json::from_str(&c.stdout.str()).unwrap_or(Value::Null);
    let failed = js.is_null();
    let mut cli: BTreeMap<String, Found> = BTreeMap::new();
    for d in js["diagnostics"].as_array().cloned().unwrap_or_default() {
        let f = d["filename"].as_str().unwrap_or("");
        let p = if f.starts_with('/') {
            f.to_string()
        } else {
            format!("/w/{}", f.trim_start_matches("./"))
        };
        let mut m = d["message"]["body"].as_str().unwrap_or("").to_string();
        if let Some(x) = d["message"]["suggestion"].as_str() {
            m = format!("{m} {x}");
        }
        cli.entry(p).or_default().push((
            d["range"][0].as_u64().unwrap_or(0) as usize,
            d["range"][1].as_u64().unwrap_or(0) as usize,
            d["message"]["name"].as_str().unwrap_or("").to_string(),
            m,
        ));
    }
    let errs: Vec<String> = js["errors"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|e| {
            format!(
                "/w/{}",
                e["file"]
                    .as_str()
                    .unwrap_or("")
                    .trim_start_matches("./")
                    .trim_start_matches("/w/")
            )
        })
        .collect();
    let before: Vec<(String, Option<String>)> = sc.get("Lbefore").unwrap_or_default();
    let mut old = sc.tree.clone();
    for (p, text) in &before {
        match text {
            Some(t) => old.insert(p.clone(), Node::file(t.clone())),
            None => old.remove(p),
        };
    }
    let mut ops = vec![];
    for (i, p) in paths.iter().enumerate() {
        ops.push(COp::Open {
            doc: i,
            text: old.get(p).unwrap_or(&sc.tree[p]).data.str().into_owned(),
        });
    }
    if !before.is_empty() {
        for i in 0..paths.len() {
            ops.push(COp::Save {
                doc: i,
                disk: false,
            });
        }
        ops.push(COp::Sleep { ms: 500 });
        for (p, _) in &before {
            ops.push(COp::Disk {
                path: p.clone(),
                node: sc.tree.get(p).cloned(),
            });
            if let Some(doc) = paths.iter().position(|x| x == p) {
                ops.push(COp::Edit {
                    doc,
                    edits: vec![EditSpec {
                        full: true,
                        ..edit(0, 0, &sc.tree[p].data.str())
                    }],
                });
            }
        }
    }
    for i in 0..paths.len() {
        ops.push(COp::Save {
            doc: i,
            disk: false,
        });
    }
    ops.push(COp::Sleep { ms: 500 });
    close_session(&mut ops);
    let s = script(paths.iter().map(|d| docspec(d)).collect(), encs, ops);
    let mut e = sc.lsp(&s);
    e.tree = old;
    let o = cx.run(e);
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let enc = h.encoding();
    let mut helpers = None;
    for p in &paths {
        let text = sc.tree[p].data.str().into_owned();
        let got = h
            .pubs
            .iter()
            .rfind(|x| x.uri == uri_of(p) && x.version.is_some());
        let Some(got) = got else {
            if !failed {
                return viol(
                    "missing",
                    format!(
                        "{p}: the server publishes nothing, the command line reports {:?}",
                        cli.get(p)
                    ),
                );
            }
            continue;
        };
        if errs.contains(p) {
            if got.diags.as_array().is_some_and(|d| d.is_empty()) {
                continue;
            }
            return viol(
                "error",
                format!(
                    "{p}: the command line fails ({}), the server publishes {}",
                    js["errors"],
                    clip(&got.diags.to_string(), 200)
                ),
            );
        }
        if failed {
            // The run as a whole may fail for another file's configuration.
            continue;
        }
        let mut l: Found = vec![];
        for d in got.diags.as_array().cloned().unwrap_or_default() {
            let Some((a, b)) = range_off_strict(&text, &d["range"], enc) else {
                return viol("range", format!("{p}: {}", d["range"]));
            };
            l.push((
                a,
                b,
                d["data"]["rule_name"].as_str().unwrap_or("").to_string(),
                d["message"].as_str().unwrap_or("").to_string(),
            ));
        }
        let mut w = cli.get(p).cloned().unwrap_or_default();
        l.sort();
        w.sort();
        if l != w {
            let a: Vec<_> = l.iter().filter(|x| !w.contains(x)).collect();
            let b: Vec<_> = w.iter().filter(|x| !l.contains(x)).collect();
            let in_r = p.rsplit('/').nth(1) == Some("R");
            if a.is_empty() && !in_r && b.iter().all(|x| x.2 == "unused_function") {
                helpers = viol(
                    "unused-test-helper",
                    format!("{p}: only on the command line: {b:?}"),
                );
                continue;
            }
            return viol(
                "findings",
                format!(
                    "{p}: only in the editor: {}; only on the command line: {}; counts {} and {}; text {:?}",
                    clip(&format!("{a:?}"), 500),
                    clip(&format!("{b:?}"), 500),
                    l.len(),
                    w.len(),
                    clip(&text, 300)
                ),
            );
        }
        if !l.is_empty() {
            cx.m.probe("findings of a file compared");
        }
    }
    helpers
}
