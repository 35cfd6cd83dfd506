//! Properties about what the language server says: C02, C05, C11, C12.
use super::lsp::*;
use crate::client::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde_json::{Value, json};

/// The text from the fence before `at` to the fence after it.
fn chunk_of(text: &str, at: usize) -> &str {
    let a = text[..at].rfind("```").unwrap_or(0);
    let b = text[at..].find("```").map_or(text.len(), |k| at + k);
    &text[a..b]
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C02",
        level: "exploration",
        quick: 5000,
        generate: gen02,
        eval: eval02,
        rule: "Documents assembled from code whose findings are known in advance, with non-ASCII text, both line endings, R and R Markdown, under every position encoding; in a quarter of the cases any code, whose findings, fixes and suppressions are compared with those of the command line; non-trivial: at least one published range or code action was compared.",
        assumptions: &[
            "The generated code stays inside the subset of R the offline parser stand-in reads like the real one.",
        ],
    }]
}

// -------------------------------------------------------------------- C02
pub fn apply_strict(text: &str, edits: &[Value], enc: Enc) -> Result<String, String> {
    let mut es = vec![];
    for e in edits {
        let Some((a, b)) = range_off_strict(text, &e["range"], enc) else {
            return Err(format!(
                "the edit range {} denotes no place in the text",
                e["range"]
            ));
        };
        es.push((a, b, e["newText"].as_str().unwrap_or("").to_string()));
    }
    es.sort_by(|a, b| b.0.cmp(&a.0));
    let mut t = text.to_string();
    for (a, b, n) in es {
        if a > b {
            return Err("reversed range".into());
        }
        t.replace_range(a..b, &n);
    }
    Ok(t)
}

pub fn gdocs(sc: &Scenario) -> Vec<(GDoc, String, Vec<Finding>)> {
    let ds: Vec<GDoc> = sc.get("docs").unwrap_or_default();
    ds.into_iter()
        .enumerate()
        .map(|(i, d)| {
            let b: Vec<Blk> = sc.get(&format!("L{i}")).unwrap_or_default();
            let (t, f) = render_doc(&d, &b);
            (d, t, f)
        })
        .collect()
}
/// Put documents made of blocks into the scenario.
pub fn put_docs(r: &mut Rng, sc: &mut Scenario, paths: &[&str], on_only: bool, max: u64) {
    let mut ds = vec![];
    for (i, p) in paths.iter().enumerate() {
        let rmd = is_rmd(p);
        let d = GDoc {
            path: p.to_string(),
            eol: if r.chance(1, 3) { "\r\n" } else { "\n" }.into(),
            last_eol: r.chance(3, 4),
            rmd,
        };
        let n = r.range(1, max);
        let bs: Vec<Blk> = (0..n).map(|_| blk(r, rmd, on_only)).collect();
        sc.put(&format!("L{i}"), bs);
        ds.push(d);
    }
    sc.put("docs", ds);
}

fn gen02(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C02", "positions");
    vary(r, &mut sc);
    if r.chance(1, 4) {
        sc.kind = "any".into();
        let p = *r.pick(&["/w/a.R", "/w/é.R", "/w/d.Rmd"]);
        sc.put("path", p);
        let n = r.range(1, 4);
        let l: Vec<String> = (0..n)
            .map(|_| {
                let c = corpus(r);
                let pre = *r.pick(&["", "", "", "# é 😀\n", "\n", "x <- '日本'; "]);
                let c = if r.chance(1, 6) {
                    format!("f <- function(x) {{\n  '😀'; {}\n}}", c.replace('\n', "\n  "))
                } else if r.chance(1, 8) {
                    doc_text(r, "x.R", true, 2)
                } else {
                    c.to_string()
                };
                let t = format!("{pre}{c}\n");
                let t = if is_rmd(p) {
                    format!("```{{r}}\n{t}```\n")
                } else {
                    t
                };
                if r.chance(1, 5) { t.replace('\n', "\r\n") } else { t }
            })
            .collect();
        sc.put("Lparts", l);
        sc.put("enc", encodings(r));
        sc.put("pick", r.next() >> 40);
        return sc;
    }
    let p = *r.pick(&["/w/a.R", "/w/b c.R", "/w/d.Rmd", "/w/e.qmd", "/w/é.r"]);
    put_docs(r, &mut sc, &[p], true, 7);
    sc.put("enc", encodings(r));
    sc.put("pick", r.next() >> 40);
    // Sub-ranges for code-action requests, as (character, length).
    let q: Vec<(u64, u64)> = (0..r.below(3))
        .map(|_| (r.next() >> 40, r.below(30)))
        .collect();
    sc.put("Lranges", q);
    sc
}

/// What the command line finds: rule, place, fix (place and text).
type Known = (String, (usize, usize), Option<(usize, usize, String)>);
fn known(sc: &Scenario, cx: &mut Ctx, path: &str, text: &str) -> Option<Vec<Known>> {
    let mut e = sc.cli(&["check", "--output-format", "json", path].map(String::from));
    e.tree.insert(path.into(), Node::file(text));
    let o = cx.reference(e);
    let j: Value = serde_json::from_str(&o.stdout.str()).ok()?;
    if j["errors"].as_array()?.len() > 0 {
        return None;
    }
    let n = |v: &Value| v.as_u64().unwrap_or(0) as usize;
    Some(
        j["diagnostics"]
            .as_array()?
            .iter()
            .map(|d| {
                let f = &d["fix"];
                let fix = (
                    n(&f["start"]),
                    n(&f["end"]),
                    f["content"].as_str().unwrap_or("").to_string(),
                );
                (
                    d["message"]["name"].as_str().unwrap_or("").to_string(),
                    (n(&d["range"][0]), n(&d["range"][1])),
                    (!fix.2.is_empty() || fix.0 != fix.1).then_some(fix),
                )
            })
            .collect(),
    )
}
/// Any code: the edits offered are those of the command line.
fn eval02any(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let path = sc.s("path").to_string();
    let text: String = sc.get::<Vec<String>>("Lparts")?.concat();
    let want = known(sc, cx, &path, &text)?;
    let encs: Vec<String> = sc.get("enc").unwrap_or_default();
    let mut ops = vec![
        COp::Open {
            doc: 0,
            text: text.clone(),
        },
        COp::Save {
            doc: 0,
            disk: false,
        },
        COp::Action {
            doc: 0,
            a: 0,
            len: 0,
            all: true,
        },
    ];
    close_session(&mut ops);
    let s = script(vec![docspec(&path)], encs, ops);
    let o = cx.run(sc.lsp(&s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let enc = h.encoding();
    let uri = uri_of(&path);
    let all = h
        .reqs
        .iter()
        .find(|q| q.method == "textDocument/codeAction")?;
    let acts = all.resp.first()?.1["result"].as_array()?.clone();
    let show = clip(&text, 400);
    for (rule, (fs, fe), fix) in &want {
        let twins: Vec<&Known> = want
            .iter()
            .filter(|w| w.0 == *rule && w.1 == (*fs, *fe))
            .collect();
        let mine: Vec<&Value> = acts
            .iter()
            .filter(|a| {
                let d = &a["diagnostics"][0];
                d["data"]["rule_name"] == rule.as_str()
                    && range_off_strict(&text, &d["range"], enc) == Some((*fs, *fe))
            })
            .collect();
        let fixes: Vec<&Value> = mine
            .into_iter()
            .filter(|a| a["title"].as_str().unwrap_or("").starts_with("Fix: "))
            .collect();
        if fixes.len() != twins.iter().filter(|t| t.2.is_some()).count() {
            return viol(
                "fix",
                format!(
                    "{} fixes are offered for {rule} at {fs}..{fe}, the command line has {fix:?}; text {show:?}",
                    fixes.len()
                ),
            );
        }
        if let (Some((a, b, c)), [f]) = (fix, &fixes[..]) {
            let es = f["edit"]["changes"][&uri]
                .as_array()
                .cloned()
                .unwrap_or_default();
            let mut exp = text.clone();
            exp.replace_range(*a..*b, c);
            let got = apply_strict(&text, &es, enc);
            if got.as_ref() != Ok(&exp) {
                return viol(
                    "fix",
                    format!(
                        "fix of {rule} at {fs}..{fe} gives {got:?} instead of {exp:?}; text {show:?}"
                    ),
                );
            }
            cx.m.probe("fix edits compared with the command line");
        }
    }
    let sup: Vec<&Value> = acts
        .iter()
        .filter(|a| !a["title"].as_str().unwrap_or("").starts_with("Fix: "))
        .collect();
    if sup.is_empty() {
        return None;
    }
    let a = sup[sc.n("pick") as usize % sup.len()];
    let title = a["title"].as_str().unwrap_or("");
    let rule = a["diagnostics"][0]["data"]["rule_name"]
        .as_str()
        .unwrap_or("")
        .to_string();
    let es = a["edit"]["changes"][&uri]
        .as_array()
        .cloned()
        .unwrap_or_default();
    let new = match apply_strict(&text, &es, enc) {
        Ok(t) => t,
        Err(e) => return viol("suppression", format!("{title}: {e}; text {show:?}")),
    };
    if title.contains("in this chunk")
        || rule.ends_with("_suppression")
        || want.iter().filter(|f| f.0 == rule).count() != 1
    {
        return None;
    }
    let args = ["check", "--add-jarl-ignore", "--select", &rule, &path].map(String::from);
    let mut e = sc.cli(&args);
    e.tree.insert(path.clone(), Node::file(text.as_str()));
    let o = cx.reference(e);
    let there = o
        .tree
        .get(&path)
        .map(|n| n.data.str().into_owned())
        .unwrap_or_default();
    if there != new {
        return viol(
            "suppression",
            format!("{title} gives {new:?}, the command line makes it {there:?}"),
        );
    }
    cx.m.probe("suppression edits compared with the command line");
    None
}

fn eval02(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    if sc.kind == "any" {
        return eval02any(sc, cx);
    }
    let docs = gdocs(sc);
    let (d, text, want) = docs.first()?;
    let encs: Vec<String> = sc.get("enc").unwrap_or_default();
    let q: Vec<(u64, u64)> = sc.get("Lranges").unwrap_or_default();
    let mut ops = vec![
        COp::Open {
            doc: 0,
            text: text.clone(),
        },
        COp::Save {
            doc: 0,
            disk: false,
        },
        COp::Action {
            doc: 0,
            a: 0,
            len: 0,
            all: true,
        },
    ];
    for (a, l) in &q {
        ops.push(COp::Action {
            doc: 0,
            a: *a,
            len: *l,
            all: false,
        });
    }
    close_session(&mut ops);
    let s = script(vec![docspec(&d.path)], encs.clone(), ops);
    let o = cx.run(sc.lsp(&s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let enc = h.encoding();
    let uri = uri_of(&d.path);
    // The negotiated unit must be one the client offered.
    let name = match enc {
        Enc::Utf8 => "utf-8",
        Enc::Utf16 => "utf-16",
        Enc::Utf32 => "utf-32",
    };
    if enc != Enc::Utf16 && !encs.iter().any(|e| e == name) {
        return viol(
            "negotiation",
            format!("the server chose {name}, the client offered {encs:?}"),
        );
    }
    let Some(p) = h.pubs.iter().find(|p| p.uri == uri) else {
        return viol(
            "missing",
            format!(
                "nothing was published for {:?}; stderr: {}",
                clip(text, 300),
                tail(&o.stderr.str(), 300)
            ),
        );
    };
    if let Err(e) = diags_match(&p.diags, text, want, enc) {
        return viol(
            "diagnostics",
            format!("{name}: {e}; text {:?}", clip(text, 300)),
        );
    }
    if !want.is_empty() {
        cx.m.probe("published ranges compared");
    }
    let pub_diags = p.diags.as_array().cloned().unwrap_or_default();
    for (n, rq) in h
        .reqs
        .iter()
        .filter(|q| q.method == "textDocument/codeAction")
        .enumerate()
    {
        let Some((_, resp)) = rq.resp.first() else {
            continue;
        };
        let Some(acts) = resp["result"].as_array() else {
            return viol("actions", format!("code action answer {resp}"));
        };
        let Some((ra, rb)) = range_off(text, &rq.params["range"], enc) else {
            continue;
        };
        // Findings inside the requested range get their actions, others none.
        for f in want {
            let overlaps = f.start < rb && ra < f.end || (ra == rb && f.start < ra && ra < f.end);
            let disjoint = f.end < ra || rb < f.start;
            let mine: Vec<&Value> = acts
                .iter()
                .filter(|a| {
                    let d = &a["diagnostics"][0];
                    d["data"]["rule_name"] == f.rule.as_str()
                        && range_off(text, &d["range"], enc) == Some((f.start, f.end))
                })
                .collect();
            if disjoint && !mine.is_empty() {
                return viol(
                    "actions",
                    format!(
                        "request {n} for {ra}..{rb} offers actions for a finding at {}..{}",
                        f.start, f.end
                    ),
                );
            }
            if !overlaps {
                continue;
            }
            if mine.is_empty() {
                return viol(
                    "actions",
                    format!(
                        "request {n} for {ra}..{rb} offers nothing for {} at {}..{}",
                        f.rule, f.start, f.end
                    ),
                );
            }
            let in_chunk = mine
                .iter()
                .any(|a| a["title"].as_str().unwrap_or("").contains("in this chunk"));
            if d.rmd
                && !in_chunk
                && !chunk_of(text, f.start).contains(&format!("{}:", f.rule))
            {
                return viol(
                    "actions",
                    format!(
                        "no action ignores {} at {}..{} for its chunk",
                        f.rule, f.start, f.end
                    ),
                );
            }
            let fixes: Vec<&&Value> = mine
                .iter()
                .filter(|a| a["title"].as_str().unwrap_or("").starts_with("Fix: "))
                .collect();
            match &f.fix {
                None if !fixes.is_empty() => {
                    return viol(
                        "actions",
                        format!("a fix is offered for {} which has none", f.rule),
                    );
                }
                Some(fx) => {
                    if fixes.len() != 1 {
                        return viol(
                            "actions",
                            format!(
                                "{} fix actions for {} at {}..{}",
                                fixes.len(),
                                f.rule,
                                f.start,
                                f.end
                            ),
                        );
                    }
                    let a = fixes[0];
                    let es = a["edit"]["changes"][&uri]
                        .as_array()
                        .cloned()
                        .unwrap_or_default();
                    let mut exp = text.clone();
                    exp.replace_range(f.start..f.end, fx);
                    match apply_strict(text, &es, enc) {
                        Err(e) => {
                            return viol(
                                "fix",
                                format!("{name}: fix of {} at {}..{}: {e}", f.rule, f.start, f.end),
                            );
                        }
                        Ok(t) if t != exp => {
                            return viol(
                                "fix",
                                format!(
                                    "{name}: fix of {} at {}..{} gives {:?} instead of {:?}",
                                    f.rule,
                                    f.start,
                                    f.end,
                                    clip(&t, 300),
                                    clip(&exp, 300)
                                ),
                            );
                        }
                        _ => {}
                    }
                    let kind = if f.safe {
                        "quickfix"
                    } else {
                        "quickfix.unsafe"
                    };
                    if a["kind"] != kind {
                        return viol("fix", format!("fix of {} has kind {}", f.rule, a["kind"]));
                    }
                    cx.m.probe("fix edits compared");
                }
                _ => {}
            }
            for a in &mine {
                if !pub_diags.contains(&a["diagnostics"][0]) {
                    return viol(
                        "actions",
                        format!(
                            "an action refers to a diagnostic that was not published: {}",
                            clip(&a["diagnostics"][0].to_string(), 300)
                        ),
                    );
                }
            }
        }
    }
    // Suppression actions: apply one or two and check again.
    let all = h
        .reqs
        .iter()
        .find(|q| q.method == "textDocument/codeAction")?;
    let acts = all.resp.first()?.1["result"].as_array()?.clone();
    let sup: Vec<&Value> = acts
        .iter()
        .filter(|a| !a["title"].as_str().unwrap_or("").starts_with("Fix: "))
        .collect();
    if sup.is_empty() {
        return None;
    }
    let mut oracle = Oracle::new();
    for k in 0..2usize.min(sup.len()) {
        let a = sup[(sc.n("pick") as usize + k * 7) % sup.len()];
        let dg = &a["diagnostics"][0];
        let rule = dg["data"]["rule_name"].as_str().unwrap_or("");
        let Some((fs, fe)) = range_off_strict(text, &dg["range"], enc) else {
            continue;
        };
        let bol = text[..fs].rfind('\n').map_or(0, |x| x + 1);
        let es = a["edit"]["changes"][&uri]
            .as_array()
            .cloned()
            .unwrap_or_default();
        let title = a["title"].as_str().unwrap_or("");
        if es.len() != 1 || es[0]["range"]["start"] != es[0]["range"]["end"] {
            return viol(
                "suppression",
                format!("{title}: not a single insertion: {}", a["edit"]),
            );
        }
        let new = match apply_strict(text, &es, enc) {
            Ok(t) => t,
            Err(e) => {
                return viol(
                    "suppression",
                    format!(
                        "{name}: {title} for {fs}..{fe}: {e}; text {:?}",
                        clip(text, 300)
                    ),
                );
            }
        };
        // The command line adds the same comment for the only finding of its rule.
        if !title.contains("in this chunk")
            && !rule.ends_with("_suppression")
            && want.iter().filter(|f| f.rule == rule).count() == 1
        {
            let mut args: Vec<String> = ["check", "--add-jarl-ignore", "--select", rule]
                .iter()
                .map(|s| s.to_string())
                .collect();
            args.push(d.path.clone());
            let mut e = sc.cli(&args);
            e.tree.insert(d.path.clone(), Node::file(text.as_str()));
            let o = cx.reference(e);
            let there = o
                .tree
                .get(&d.path)
                .map(|n| n.data.str().into_owned())
                .unwrap_or_default();
            if there != new {
                return viol(
                    "suppression",
                    format!(
                        "{title} for {fs}..{fe} gives {:?}, the command line makes it {:?}",
                        clip(&new, 400),
                        clip(&there, 400)
                    ),
                );
            }
            cx.m.probe("suppression edits compared with the command line");
        }
        if text[bol..fs].contains("; ") {
            // Where a comment binds on such lines is up to the real parser.
            continue;
        }
        let at = range_off_strict(text, &es[0]["range"], enc).unwrap().0;
        let ins = new.len() - text.len();
        let (dg2, _) = oracle.ask(cx, sc, &sc.tree, &d.path, &new, &encs, &[]);
        let Some(dg2) = dg2 else {
            return viol(
                "suppression",
                format!(
                    "{title} for {fs}..{fe} of {:?} yields a text that is not accepted: {:?}",
                    clip(text, 300),
                    clip(&new, 300)
                ),
            );
        };
        let got: Vec<(String, usize, usize)> = dg2
            .as_array()
            .map(|v| {
                v.iter()
                    .filter_map(|x| {
                        range_off_strict(&new, &x["range"], enc).map(|(a, b)| {
                            (
                                x["data"]["rule_name"].as_str().unwrap_or("").to_string(),
                                a,
                                b,
                            )
                        })
                    })
                    .collect()
            })
            .unwrap_or_default();
        let shift = |x: usize| if x >= at { x + ins } else { x };
        let before: Vec<(String, usize, usize)> = want
            .iter()
            .map(|f| {
                (
                    f.rule.clone(),
                    shift(f.start),
                    if f.start < at && f.end > at {
                        f.end + ins
                    } else if f.end > at || f.start >= at {
                        f.end + ins
                    } else {
                        f.end
                    },
                )
            })
            .collect();
        let target = (
            rule.to_string(),
            shift(fs),
            if fe > at || fs >= at { fe + ins } else { fe },
        );
        if got.contains(&target) {
            return viol(
                "suppression",
                format!(
                    "{title} for {fs}..{fe}: the finding is still reported in {:?}",
                    clip(&new, 400)
                ),
            );
        }
        for g in &got {
            // A chunk-wide comment makes narrower ones redundant.
            let redundant = title.contains("in this chunk") && g.0 == "outdated_suppression";
            if !before.contains(g) && !redundant {
                return viol(
                    "suppression",
                    format!(
                        "{title} for {fs}..{fe}: adds finding {g:?} in {:?}",
                        clip(&new, 400)
                    ),
                );
            }
        }
        for b in &before {
            if !got.contains(b) && b.0 != rule {
                return viol(
                    "suppression",
                    format!(
                        "{title} for {fs}..{fe}: also hides {b:?} in {:?}",
                        clip(&new, 400)
                    ),
                );
            }
        }
        cx.m.probe("suppression edits applied and checked");
    }
    None
}
