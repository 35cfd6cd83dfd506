//! Properties of the language server (C01..C12).
use crate::client::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C01",
        level: "exploration",
        quick: 6000,
        generate: gen01,
        eval: eval01,
        rule: "Histories of open, change (incremental, full, batches of dependent edits), save and close on several documents under every encoding; after each save and request the published finding quotes the whole text, which must be the text of the reference model.",
        assumptions: &["positions beyond the last line are unspecified and never generated"],
    }]
}

pub fn docspec(path: &str) -> DocSpec {
    let lang = if path.ends_with(".R") || path.ends_with(".r") {
        "r"
    } else {
        "rmd"
    };
    DocSpec {
        path: path.into(),
        lang: lang.into(),
    }
}
pub fn script(docs: Vec<DocSpec>, encodings: Vec<String>, ops: Vec<COp>) -> Script {
    // Clients count versions from 0, from 1 or go on from earlier, and may leave some out.
    let (first, skip) = match ops.len() % 8 {
        0 => (-1, 0),
        1 => (-1, 2),
        2 => (4_000_000, 0),
        3 => (0, 1),
        _ => (0, 0),
    };
    Script {
        docs,
        encodings,
        root: "/w".into(),
        auto_init: true,
        restart_versions: false,
        first,
        skip,
        ops,
    }
}
pub fn close_session(ops: &mut Vec<COp>) {
    ops.push(COp::Sync);
    ops.push(COp::Sleep { ms: 500 });
    ops.push(COp::CloseStdin);
}

// -------------------------------------------------------------------- C01
fn gen01(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C01", "sync");
    vary(r, &mut sc);
    let names = [
        "/w/a.R",
        "/w/b.R",
        "/w/a b.R",
        "/w/é.R",
        "/w/A.R",
        "/w/s/a.R",
        "/w/d.Rmd",
        "/w/e.qmd",
        "/w/a%20b.R",
    ];
    let nd = r.range(1, 3) as usize;
    let mut docs = vec![];
    let mut used = BTreeSet::new();
    while docs.len() < nd {
        let p = *r.pick(&names);
        if used.insert(p) {
            docs.push(docspec(p));
        }
    }
    let eol = if r.chance(1, 3) { "\r\n" } else { "\n" };
    let mut ops = vec![];
    let mut frames: Vec<Option<(String, String)>> = vec![None; nd];
    let steps = r.range(4, 30);
    for _ in 0..steps {
        let d = r.us(nd);
        let rmd = !docs[d].path.ends_with(".R");
        let Some((pre, post)) = frames[d].clone() else {
            let f = str_frame(rmd, eol, r);
            let text = format!("{}{}{}", f.0, str_piece(r, eol), f.1);
            frames[d] = Some(f);
            ops.push(COp::Open { doc: d, text });
            continue;
        };
        match r.below(10) {
            0..=4 => {
                let k = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
                let mut edits = vec![];
                let mut frame = (pre.clone(), post.clone());
                for _ in 0..k {
                    if r.chance(1, 12) {
                        frame = str_frame(rmd, eol, r);
                        edits.push(EditSpec {
                            full: true,
                            ..edit(
                                0,
                                0,
                                &format!("{}{}{}", frame.0, str_piece(r, eol), frame.1),
                            )
                        });
                    } else {
                        let t = if r.chance(1, 4) {
                            String::new()
                        } else {
                            str_piece(r, eol)
                        };
                        edits.push(EditSpec {
                            lo: frame.0.chars().count() as u64,
                            hi: frame.1.chars().count() as u64,
                            past: if r.chance(1, 4) {
                                r.range(1, 20) as u32
                            } else {
                                0
                            },
                            ..edit(r.next() >> 40, *r.pick(&[0, 0, 0, 1, 2, 5, 30]), &t)
                        });
                    }
                }
                frames[d] = Some(frame);
                ops.push(COp::Edit { doc: d, edits });
            }
            5 | 6 => ops.push(COp::Save {
                doc: d,
                disk: r.chance(1, 2),
            }),
            7 | 8 => ops.push(COp::Action {
                doc: d,
                a: 0,
                len: 0,
                all: true,
            }),
            _ => match r.below(3) {
                0 => {
                    ops.push(COp::Close { doc: d });
                    frames[d] = None;
                }
                1 => ops.push(COp::Sleep { ms: r.range(1, 50) }),
                _ => ops.push(COp::Sync),
            },
        }
    }
    for d in 0..nd {
        ops.push(COp::Save {
            doc: d,
            disk: false,
        });
        ops.push(COp::Action {
            doc: d,
            a: 0,
            len: 0,
            all: true,
        });
    }
    close_session(&mut ops);
    sc.script = Some(script(docs, encodings(r), ops));
    sc.shrink = vec!["script".into()];
    sc
}

fn eval01(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s = sc.script.as_ref()?;
    let o = cx.run(sc.lsp(s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let enc = h.encoding();
    let mut seen = 0;
    for p in &h.pubs {
        let Some(v) = p.version else { continue };
        let Some(d) = h.text_at(&p.uri, v) else {
            return viol(
                "version",
                format!(
                    "diagnostics for {} name version {v}, which the client never had",
                    p.uri
                ),
            );
        };
        let Some((a, b, body)) = str_expect(&d.text) else {
            continue;
        };
        seen += 1;
        let want = vec![Finding {
            rule: "any_is_na".into(),
            start: a,
            end: b,
            fix: Some(format!("anyNA(\"{body}\")")),
            safe: true,
        }];
        // R Markdown findings have no fix; their place still shows the text.
        let rmd = !p.uri.ends_with(".R");
        let want: Vec<Finding> = want
            .into_iter()
            .map(|mut f| {
                if rmd {
                    f.fix = None;
                }
                f
            })
            .collect();
        if let Err(e) = diags_match(&p.diags, &d.text, &want, enc) {
            return viol(
                "content",
                format!(
                    "diagnostics of {} version {v} do not describe the client's text {:?}: {e}",
                    p.uri,
                    clip(&d.text, 200)
                ),
            );
        }
    }
    // The last save of every document must have been answered.
    for q in h
        .reqs
        .iter()
        .filter(|q| q.method == "textDocument/codeAction")
    {
        let Some(text) = &q.text else { continue };
        let Some((a, b, body)) = str_expect(text) else {
            continue;
        };
        let uri = q.params["textDocument"]["uri"].as_str().unwrap_or("");
        let Some((_, resp)) = q.resp.first() else {
            continue;
        };
        if !uri.ends_with(".R") {
            continue;
        }
        let Some(acts) = resp["result"].as_array() else {
            return viol("answer", format!("code actions for {uri}: {resp}"));
        };
        seen += 1;
        let fix = acts
            .iter()
            .find(|x| x["title"].as_str().unwrap_or("").starts_with("Fix"));
        let ok = fix.is_some_and(|f| {
            let e = &f["edit"]["changes"][uri][0];
            range_off_strict(text, &e["range"], enc) == Some((a, b))
                && e["newText"].as_str() == Some(&format!("anyNA(\"{body}\")"))
        });
        if !ok {
            return viol(
                "content",
                format!(
                    "code actions of {uri} do not describe the client's text {:?}: {}",
                    clip(text, 200),
                    clip(&resp.to_string(), 400)
                ),
            );
        }
    }
    // Every document ends with a save of parsable text: it must be answered.
    for d in h.docs.iter().filter(|d| d.what == "save") {
        let last = h.docs.iter().rfind(|x| x.uri == d.uri).unwrap();
        if last.what == "save" && last.seq == d.seq && str_expect(&d.text).is_some() {
            if !h
                .pubs
                .iter()
                .any(|p| p.uri == d.uri && p.version == Some(d.version))
            {
                return viol(
                    "content",
                    format!(
                        "nothing was ever published for the text of {} at its last save (version {})",
                        d.uri, d.version
                    ),
                );
            }
        }
    }
    if seen > 0 {
        cx.m.probe("texts compared");
    }
    None
}
