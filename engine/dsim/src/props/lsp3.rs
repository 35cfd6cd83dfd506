//! Properties about how the language server behaves as a process:
//! C03, C04, C06, C07, C08, C09.
use super::lsp::*;
use crate::client::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            level: "exploration",
            quick: 6000,
            generate: gen03,
            eval: eval03,
            rule: "Sessions mixing valid traffic with unknown methods, malformed parameters, odd identifiers, unknown documents, cancellations and unsolicited replies; every request and every response of the run is matched.",
            assumptions: &[
                "Messages are well-formed JSON-RPC: what is not JSON at all has no identifier to answer.",
            ],
        },
        Check {
            id: "C04",
            level: "exploration",
            quick: 6000,
            generate: gen04,
            eval: eval04,
            rule: "Documents whose every version carries a unique finding, saved in bursts and closed and reopened (also with versions starting anew) under random schedules; the sequence of published sets is matched with the sequence of versions.",
            assumptions: &["A text that cannot be parsed has no findings: its set is empty."],
        },
        Check {
            id: "C06",
            level: "exploration",
            quick: 2500,
            generate: gen06,
            eval: eval06,
            rule: "Sessions with arbitrary documents, unusual URIs, failing file-system calls, bursts larger than the server's queue and clients that stop reading; afterwards faults stop and a probe document must be served correctly.",
            assumptions: &[
                "Deep nesting is bounded: the stand-in parser is recursive where the real one is not.",
            ],
        },
        Check {
            id: "C07",
            level: "exploration",
            quick: 6000,
            generate: gen07,
            eval: eval07,
            rule: "Every order of shutdown, exit, end of input and closed output after (and before) initialization, with work pending; the process must end, with the right status, all answers delivered.",
            assumptions: &[
                "The status after end of input without exit is not specified by the protocol and not judged.",
            ],
        },
        Check {
            id: "C08",
            level: "exploration",
            quick: 4000,
            generate: gen08,
            eval: eval08,
            rule: "The same session with unrestricted pipes and with pipes that move a few bytes at a time, interrupted system calls and every log level: output is framed messages only, and the answers are the same.",
            assumptions: &[],
        },
        Check {
            id: "C09",
            level: "exploration",
            quick: 4000,
            generate: gen09,
            eval: eval09,
            rule: "Arbitrary sessions over a project on disk; no file-system call that could change anything may be attempted, and the tree at the end equals the tree the client itself left.",
            assumptions: &[],
        },
    ]
}

// -------------------------------------------------------------------- C03
fn odd_msg(r: &mut Rng, docs: &[String], k: u64) -> Value {
    let id = match r.below(6) {
        0 => json!(format!("s{k}")),
        1 => json!(format!("é{k}")),
        2 => json!(-(1000 + k as i64)),
        3 => json!(format!("{k}")),
        4 => json!(2_000_000_000i64 - k as i64),
        _ => json!(1000 + k),
    };
    let uri = if r.chance(1, 2) {
        uri_of(r.pick(docs))
    } else {
        r.pick(&[
            "file:///w/none.R",
            "untitled:Untitled-1",
            "file:///w/none%20x.Rmd",
            "http://x.org/a.R",
        ])
        .to_string()
    };
    let range = json!({"start": {"line": 0, "character": 0}, "end": {"line": 999, "character": 0}});
    let (method, params) = match r.below(14) {
        0 => (
            "textDocument/hover",
            json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}}),
        ),
        1 => ("workspace/symbol", json!({"query": "x"})),
        2 => ("$/jarl/none", json!(null)),
        3 => (
            "textDocument/diagnostic",
            json!({"textDocument": {"uri": uri}}),
        ),
        4 => ("", json!({})),
        5 => (
            "textDocument/codeAction",
            json!({"textDocument": {"uri": uri}, "range": range, "context": {"diagnostics": []}}),
        ),
        6 => (
            "textDocument/codeAction",
            json!({"textDocument": {"uri": uri}, "context": {"diagnostics": []}}),
        ),
        7 => (
            "textDocument/codeAction",
            json!({"textDocument": {"uri": "no uri"}, "range": range, "context": {"diagnostics": []}}),
        ),
        8 => (
            "textDocument/codeAction",
            json!({"textDocument": {"uri": uri}, "range": {"start": {"line": -1, "character": 0}, "end": {"line": 0, "character": 0}}, "context": {"diagnostics": []}}),
        ),
        9 => ("textDocument/codeAction", json!([1, 2])),
        10 => ("textDocument/codeAction", json!(null)),
        11 => (
            "textDocument/formatting",
            json!({"textDocument": {"uri": uri}, "options": {}}),
        ),
        12 => (
            "workspace/executeCommand",
            json!({"command": "jarl.applyAutofix", "arguments": []}),
        ),
        _ => ("codeAction/resolve", json!({"title": "x"})),
    };
    let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
    if !params.is_null() {
        m["params"] = params;
    }
    m
}
fn odd_note(r: &mut Rng, docs: &[String]) -> Value {
    let uri = uri_of(r.pick(docs));
    let (method, params) = match r.below(9) {
        0 => (
            "textDocument/didSave",
            json!({"textDocument": {"uri": "file:///w/none.R"}}),
        ),
        1 => (
            "textDocument/didChange",
            json!({"textDocument": {"uri": "file:///w/none.R", "version": 3}, "contentChanges": [{"text": "x"}]}),
        ),
        2 => (
            "textDocument/didClose",
            json!({"textDocument": {"uri": "file:///w/none.R"}}),
        ),
        3 => (
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri}, "contentChanges": 3}),
        ),
        4 => (
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri}}),
        ),
        5 => ("workspace/didChangeConfiguration", json!({"settings": {}})),
        6 => ("$/setTrace", json!({"value": "off"})),
        7 => ("textDocument/didSave", json!(null)),
        _ => ("none/such", json!([])),
    };
    let mut m = json!({"jsonrpc": "2.0", "method": method});
    if !params.is_null() {
        m["params"] = params;
    }
    m
}
fn gen03(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C03", "requests");
    vary(r, &mut sc);
    let docs = project(r, &mut sc, true);
    let mut ops = session(
        r,
        &docs,
        &SessOpt {
            min: 3,
            max: 20,
            garbage: true,
            disk: false,
            apply: true,
        },
    );
    let extra = r.range(1, 10);
    for k in 0..extra {
        let at = r.us(ops.len() + 1);
        let op = match r.below(8) {
            0 | 1 => COp::Msg {
                msg: odd_note(r, &docs),
            },
            2 => COp::Respond {
                id: r.below(5) as i64,
                error: r.chance(1, 2),
            },
            3 => COp::Action {
                doc: r.us(docs.len()),
                a: 0,
                len: 0,
                all: true,
            },
            _ => COp::Msg {
                msg: odd_msg(r, &docs, k),
            },
        };
        ops.insert(at, op);
    }
    close_session(&mut ops);
    sc.script = Some(script(
        docs.iter().map(|d| docspec(d)).collect(),
        encodings(r),
        ops,
    ));
    if r.chance(1, 3) {
        sc.pipes.stdout_cap = *r.pick(&[64, 512, 4096]);
        sc.pipes.stdin_cap = *r.pick(&[64, 512, 65536]);
    }
    sc.shrink = vec!["script".into(), "tree".into()];
    sc
}
fn is_ca_params(p: &Value) -> bool {
    let pos = |v: &Value| v["line"].as_u64().is_some() && v["character"].as_u64().is_some();
    p["textDocument"]["uri"]
        .as_str()
        .is_some_and(|u| u.contains(':') && !u.contains(' '))
        && pos(&p["range"]["start"])
        && pos(&p["range"]["end"])
        && p["context"]["diagnostics"].is_array()
}
/// Every request has exactly one response of the right kind.
pub fn one_response(h: &Hist, upto: u64) -> Option<Viol> {
    let mut open: BTreeMap<String, u64> = BTreeMap::new();
    let mut evs: Vec<(u64, &DocEv)> = h.docs.iter().map(|d| (d.seq, d)).collect();
    evs.sort_by_key(|e| e.0);
    for q in &h.reqs {
        if q.seq > upto {
            continue;
        }
        let what = format!("{} (id {})", q.method, q.id);
        match q.resp.len() {
            0 => {
                return viol(
                    "unanswered",
                    format!(
                        "request {what} was never answered; parameters {}",
                        clip(&q.params.to_string(), 200)
                    ),
                );
            }
            1 => {}
            n => return viol("repeated", format!("request {what} was answered {n} times")),
        }
        let a = &q.resp[0].1;
        let (res, err) = (
            a.get("result").is_some_and(|v| !v.is_null()),
            a.get("error").is_some_and(|v| !v.is_null()),
        );
        if res && err {
            return viol(
                "kind",
                format!("the answer to {what} has a result and an error: {a}"),
            );
        }
        match q.method.as_str() {
            "initialize" => {}
            "shutdown" => {
                if err {
                    return viol("kind", format!("shutdown was answered with {a}"));
                }
            }
            "textDocument/codeAction" => {
                open.clear();
                for (s, d) in &evs {
                    if *s < q.seq {
                        match d.what {
                            "open" => {
                                open.insert(d.uri.clone(), 0);
                            }
                            "close" => {
                                open.remove(&d.uri);
                            }
                            _ => {}
                        }
                    }
                }
                let u = q.params["textDocument"]["uri"].as_str().unwrap_or("");
                if !is_ca_params(&q.params) {
                    if !err {
                        return viol(
                            "kind",
                            format!("malformed parameters of {what} were answered with {a}"),
                        );
                    }
                } else if open.contains_key(u) {
                    if !a["result"].is_array() {
                        return viol(
                            "kind",
                            format!("{what} about the open document {u} was answered with {a}"),
                        );
                    }
                } else if !err {
                    return viol(
                        "kind",
                        format!("{what} about {u}, which is not open, was answered with {a}"),
                    );
                }
            }
            _ => {
                if a["error"]["code"] != -32601 {
                    return viol(
                        "kind",
                        format!("unknown method {what} was answered with {a}"),
                    );
                }
            }
        }
    }
    if let Some(s) = h.stray.first() {
        return viol("stray", format!("a response nobody asked for: {s}"));
    }
    None
}
fn eval03(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s = sc.script.as_ref()?;
    let o = cx.run(sc.lsp(s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    if h.reqs.len() > 1 {
        cx.m.probe("sessions with requests");
    }
    one_response(&h, u64::MAX)
}

// -------------------------------------------------------------------- C04
fn gen04(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C04", "order");
    vary(r, &mut sc);
    if sc.cpus == 1 && r.chance(3, 4) {
        sc.cpus = 4;
    }
    let nd = r.range(1, 3) as usize;
    let paths: Vec<String> = ["/w/a.R", "/w/b.R", "/w/c d.R"][..nd]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let mut n = 0;
    let mut text = |r: &mut Rng| {
        n += 1;
        // Longer texts take longer to check.
        let pad = "zz <- 1\n".repeat(*r.pick(&[0, 0, 0, 5, 40]));
        match r.below(10) {
            0 => format!("{pad}x{n} <- ("),
            1 => format!("{pad}x{n} <- 1\n"),
            _ => format!("{pad}any(is.na(\"t{n}\"))\n"),
        }
    };
    let mut ops = vec![];
    let mut open = vec![false; nd];
    for _ in 0..r.range(4, 30) {
        let d = r.us(nd);
        if !open[d] {
            if r.chance(1, 4) {
                // Some editors still send these for a document they closed.
                let u = uri_of(&paths[d]);
                let doc = json!({"uri": u, "version": 77});
                ops.push(match r.below(3) {
                    0 => COp::Notify { method: "textDocument/didChange".into(), params: json!({"textDocument": doc, "contentChanges": [{"text": "any(is.na(\"closed\"))\n"}]}) },
                    1 => COp::Request { method: "textDocument/codeAction".into(), params: json!({"textDocument": doc, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 9, "character": 0}}, "context": {"diagnostics": []}}) },
                    _ => COp::Notify { method: "textDocument/didSave".into(), params: json!({"textDocument": doc}) },
                });
                continue;
            }
            ops.push(COp::Open {
                doc: d,
                text: text(r),
            });
            open[d] = true;
            if r.chance(2, 3) {
                ops.push(COp::Save {
                    doc: d,
                    disk: false,
                });
            }
            continue;
        }
        match r.below(12) {
            0..=5 => {
                ops.push(COp::Edit {
                    doc: d,
                    edits: vec![EditSpec {
                        full: true,
                        ..edit(0, 0, &text(r))
                    }],
                });
                if r.chance(3, 4) {
                    ops.push(COp::Save {
                        doc: d,
                        disk: r.chance(1, 4),
                    });
                }
            }
            6 => ops.push(COp::Save {
                doc: d,
                disk: false,
            }),
            7 | 8 => {
                ops.push(COp::Close { doc: d });
                open[d] = false;
            }
            9 => ops.push(COp::Action {
                doc: d,
                a: 0,
                len: 0,
                all: true,
            }),
            10 => ops.push(COp::Stall { ms: r.range(1, 50) }),
            _ => ops.push(COp::Sleep { ms: r.range(1, 20) }),
        }
    }
    close_session(&mut ops);
    let mut s = script(
        paths.iter().map(|d| docspec(d)).collect(),
        encodings(r),
        ops,
    );
    s.restart_versions = r.chance(1, 3);
    sc.script = Some(s);
    sc.shrink = vec!["script".into()];
    sc
}
fn token(t: &str) -> Option<String> {
    let a = t.find("any(is.na(\"")? + 11;
    let b = t[a..].find('"')? + a;
    Some(t[a..b].to_string())
}
fn eval04(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s = sc.script.as_ref()?;
    let o = cx.run(sc.lsp(s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let mut uris: Vec<String> = h.docs.iter().map(|d| d.uri.clone()).collect();
    uris.sort();
    uris.dedup();
    for u in &uris {
        let mut is_open = false;
        let evs: Vec<&DocEv> = h
            .docs
            .iter()
            .filter(|d| &d.uri == u)
            .filter(|d| {
                // Notifications about a closed document change nothing.
                let counts = is_open || d.what == "open";
                is_open = counts && d.what != "close";
                counts
            })
            .collect();
        // Position of each token's text in the client's history.
        let mut pos: BTreeMap<String, usize> = BTreeMap::new();
        for (i, e) in evs.iter().enumerate() {
            if e.what == "open" || e.what == "change" {
                if let Some(t) = token(&e.text) {
                    pos.insert(t, i);
                }
            }
        }
        let closes: Vec<usize> = evs
            .iter()
            .enumerate()
            .filter(|(_, e)| e.what == "close")
            .map(|x| x.0)
            .collect();
        let mut shown: Option<usize> = None; // position of the text last shown
        let mut last_version: Option<i64> = None;
        let mut ncl = 0;
        let pubs: Vec<&Pubd> = h.pubs.iter().filter(|p| &p.uri == u).collect();
        for p in &pubs {
            let diags = p.diags.as_array().cloned().unwrap_or_default();
            if p.version.is_none() && diags.is_empty() {
                ncl += 1;
                if ncl > closes.len() || evs[closes[ncl - 1]].seq > p.seq {
                    return viol("close", format!("{u}: cleared without a close"));
                }
                shown = Some(closes[ncl - 1]);
                last_version = None;
                continue;
            }
            let Some(v) = p.version else {
                return viol("version", format!("{u}: published without a version"));
            };
            if let Some(l) = last_version {
                if v < l {
                    return viol(
                        "backwards",
                        format!("{u}: version {v} published after version {l}"),
                    );
                }
            }
            last_version = Some(v);
            if diags.len() > 1 {
                return viol(
                    "content",
                    format!("{u}: {} findings where at most one exists", diags.len()),
                );
            }
            let Some(d) = diags.first() else { continue };
            let t = d["data"]["content"]
                .as_str()
                .unwrap_or("")
                .replace("anyNA(\"", "")
                .replace("\")", "");
            let Some(&i) = pos.get(&t) else {
                return viol(
                    "content",
                    format!("{u}: findings of a text that never was: {t:?}"),
                );
            };
            if evs[i].version != v {
                return viol(
                    "version",
                    format!(
                        "{u}: text of version {} published as version {v}",
                        evs[i].version
                    ),
                );
            }
            if let Some(l) = shown {
                if i < l {
                    let what = if evs[l].what == "close" {
                        "the document was closed and cleared".to_string()
                    } else {
                        format!("version {} was shown", evs[l].version)
                    };
                    return viol(
                        "backwards",
                        format!("{u}: version {v} (text {t:?}) published after {what}"),
                    );
                }
            }
            shown = Some(i);
            cx.m.probe("published sets placed in the history");
        }
        // What must be shown at the end.
        let last_open = evs.iter().rposition(|e| e.what == "open").unwrap_or(0);
        let closed = evs.last().is_some_and(|e| e.what == "close");
        let save = evs
            .iter()
            .enumerate()
            .skip(last_open)
            .rfind(|(_, e)| e.what == "save");
        let fin = pubs
            .last()
            .map(|p| p.diags.as_array().cloned().unwrap_or_default())
            .unwrap_or_default();
        if ncl != closes.len() {
            return viol(
                "close",
                format!("{u}: closed {} times, cleared {ncl} times", closes.len()),
            );
        }
        if closed || save.is_none() {
            if !fin.is_empty() {
                return viol(
                    "final",
                    format!(
                        "{u}: ends with {} findings though it is {}",
                        fin.len(),
                        if closed {
                            "closed"
                        } else {
                            "open but was never saved"
                        }
                    ),
                );
            }
        } else if let Some((_, e)) = save {
            // A text that can't be parsed has no findings.
            let want = token(&e.text);
            let got = fin.first().map(|d| {
                d["data"]["content"]
                    .as_str()
                    .unwrap_or("")
                    .replace("anyNA(\"", "")
                    .replace("\")", "")
            });
            let lv = pubs.last().and_then(|p| p.version);
            if want != got || lv != Some(e.version) {
                return viol(
                    "final",
                    format!(
                        "{u}: the last published set is {got:?} of version {lv:?}, the last save was {want:?} of version {}",
                        e.version
                    ),
                );
            }
        }
    }
    None
}

// -------------------------------------------------------------------- C06
fn gen06(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C06", "serving");
    vary(r, &mut sc);
    let mut docs = project(r, &mut sc, true);
    for p in [
        "/w/none/x.R",
        "/w/R/y.R",
        "/w/bad\u{1}name.R",
        "/w/q?#%.R",
        "/w/s/../z.R",
        "/w/no_ext",
        "/w/a.txt",
        "/a.R",
    ] {
        if r.chance(1, 5) {
            docs.push(p.to_string());
        }
    }
    if r.chance(1, 2) {
        sc.file(
            "/w/DESCRIPTION",
            r.pick(&[
                "Package: foo\n",
                "",
                "Depends: R (>= x)\n",
                ":::\n",
                "Depends: R (>=\n",
            ])
            .to_string(),
        );
    }
    for p in ["/w/jarl.toml", "/w/R/jarl.toml", "/w/s/.jarl.toml"] {
        if r.chance(1, 5) {
            let t = if r.chance(1, 2) {
                r.pick(BAD_TOML).to_string()
            } else {
                toml(r)
            };
            sc.file(p, t);
        }
    }
    if r.chance(1, 6) {
        sc.tree.insert(
            "/w/R/bin.R".into(),
            Node {
                kind: Kind::File,
                data: Bytes(vec![0xff, 0xfe, 0, 1]),
                mode: 0o644,
            },
        );
    }
    if r.chance(1, 8) {
        sc.tree.insert("/w/R/dir.R".into(), Node::dir());
    }
    if r.chance(1, 8) {
        sc.tree.insert("/w/R/loop.R".into(), Node::link("loop.R"));
    }
    if r.chance(1, 8) {
        sc.tree.insert("/w/jarl.toml".into(), Node::dir());
    }
    let mut ops = session(
        r,
        &docs,
        &SessOpt {
            min: 4,
            max: 25,
            garbage: true,
            disk: true,
            apply: true,
        },
    );
    // Bursts and stalls.
    for _ in 0..r.below(3) {
        let at = r.us(ops.len() + 1);
        let d = r.us(docs.len());
        let k = *r.pick(&[5, 20, 130, 260]);
        let mut b = vec![];
        if r.chance(1, 2) {
            b.push(COp::Stall {
                ms: r.range(1, 5000),
            });
        }
        let act = r.chance(1, 2);
        for _ in 0..k {
            b.push(if act {
                COp::Action {
                    doc: d,
                    a: 0,
                    len: 0,
                    all: true,
                }
            } else {
                COp::Save {
                    doc: d,
                    disk: false,
                }
            });
        }
        ops.splice(at..at, b);
    }
    for _ in 0..r.below(3) {
        let at = r.us(ops.len() + 1);
        let op = match r.below(6) {
            0 => COp::Stall {
                ms: r.range(1, 20_000),
            },
            1 => COp::Msg {
                msg: odd_note(r, &docs),
            },
            2 => COp::Disk {
                path: "/w/jarl.toml".into(),
                node: Some(Node::file(*r.pick(BAD_TOML))),
            },
            3 => COp::Disk {
                path: "/w/R".into(),
                node: None,
            },
            4 => COp::Respond {
                id: r.below(5) as i64,
                error: true,
            },
            _ => {
                let mut t = String::new();
                for _ in 0..r.range(1, 200) {
                    t.push(*r.pick(&[
                        '(', ')', '{', '}', '[', ']', '"', '\'', '`', '\n', '\r', '#', 'é', '😀',
                        '\0', '<', '-', '=', '!', '\\', '%', 'x', '1', ' ', '\u{feff}', ';', ',',
                        '|', '>', '@', '$', '~',
                    ]));
                }
                COp::Edit {
                    doc: r.us(docs.len()),
                    edits: vec![EditSpec {
                        full: true,
                        ..edit(0, 0, &t)
                    }],
                }
            }
        };
        ops.insert(at, op);
        if r.chance(1, 2) {
            let d = r.us(docs.len());
            ops.insert(
                at + 1,
                COp::Save {
                    doc: d,
                    disk: false,
                },
            );
        }
    }
    // File-system calls that fail for a while.
    for _ in 0..*r.pick(&[0, 0, 1, 2, 4]) {
        let op = *r.pick(&[
            "open", "read", "stat", "opendir", "readdir", "realpath", "lstat", "getcwd",
        ]);
        let path = *r.pick(&[
            "",
            "",
            "/w/jarl.toml",
            "/w/R",
            "/w/DESCRIPTION",
            "/w/R/a.R",
            "/w/R/b.R",
            "/w",
        ]);
        let e = *r.pick(&[5, 13, 24, 2, 20, 40]);
        sc.faults.push(Fault {
            op: op.into(),
            path: path.into(),
            nth: r.range(1, 12) as u32,
            act: Act::Errno(e),
        });
    }
    if r.chance(1, 8) {
        sc.pipes.close_stderr_after = Some(r.below(200) as usize);
    }
    if r.chance(1, 3) {
        sc.pipes.stdout_cap = *r.pick(&[16, 200, 4096]);
    }
    sc.script = Some(script(
        docs.iter().map(|d| docspec(d)).collect(),
        encodings(r),
        ops,
    ));
    sc.shrink = vec!["script".into(), "tree".into()];
    sc
}
fn eval06(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let mut s = sc.script.clone()?;
    // Afterwards everything is in order again.
    s.ops.push(COp::Sync);
    for p in [
        "/w/jarl.toml",
        "/w/.jarl.toml",
        "/w/DESCRIPTION",
        "/jarl.toml",
        "/home/u/.config/jarl/jarl.toml",
    ] {
        s.ops.push(COp::Disk {
            path: p.into(),
            node: None,
        });
    }
    let n = s.docs.len();
    s.docs.push(docspec("/w/probe.R"));
    s.ops.extend([
        COp::Sleep { ms: 30_000 },
        COp::Heal,
        COp::Open {
            doc: n,
            text: "any(is.na(\"probe\"))\n".into(),
        },
        COp::Save {
            doc: n,
            disk: false,
        },
        COp::Action {
            doc: n,
            a: 0,
            len: 0,
            all: true,
        },
        COp::Sync,
        COp::Sleep { ms: 1000 },
        COp::Shutdown,
        COp::Sync,
        COp::Exit,
        COp::CloseStdin,
    ]);
    let s = &s;
    let mut e = sc.lsp(s);
    e.faults = sc.faults.clone();
    e.max_steps = 2_000_000;
    let o = cx.run(e);
    match &o.status {
        Status::Signal(n) => {
            return viol(
                "crash",
                format!(
                    "the server was terminated by signal {n}; stderr: {}",
                    tail(&o.stderr.str(), 400)
                ),
            );
        }
        Status::Deadlock => {
            return viol(
                "deadlock",
                format!("no thread can continue: {:?}", o.blocked),
            );
        }
        Status::Hang => {
            return viol(
                "hang",
                format!(
                    "the server did not end after exit; threads: {:?}",
                    o.blocked
                ),
            );
        }
        Status::StepLimit => return viol("livelock", "the step limit was reached".to_string()),
        _ => {}
    }
    let h = read_hist(&o);
    if let Some(n) = h.notes.iter().find(|n| n.1.contains("timeout")) {
        return viol(
            "unanswered",
            format!("{}; stderr: {}", n.1, tail(&o.stderr.str(), 400)),
        );
    }
    let uri = uri_of("/w/probe.R");
    let ok = h.pubs.iter().any(|p| {
        p.uri == uri && p.version.is_some() && p.diags.as_array().is_some_and(|a| a.len() == 1)
    });
    if !ok {
        return viol(
            "probe",
            format!(
                "the probe document was not published; stderr: {}",
                tail(&o.stderr.str(), 400)
            ),
        );
    }
    let q = h
        .reqs
        .iter()
        .rfind(|q| q.method == "textDocument/codeAction")?;
    if !q
        .resp
        .first()
        .is_some_and(|a| a.1["result"].as_array().is_some_and(|x| !x.is_empty()))
    {
        return viol(
            "probe",
            format!(
                "the probe request was answered with {:?}",
                q.resp.first().map(|x| x.1.to_string())
            ),
        );
    }
    // Every last save was published, also those of texts that can't be checked.
    let uris: BTreeSet<&String> = h
        .docs
        .iter()
        .map(|d| &d.uri)
        .filter(|u| !u.contains(".."))
        .collect();
    for u in uris {
        let mut save = None;
        let mut open = false;
        for d in h.docs.iter().filter(|d| &d.uri == u) {
            match &*d.what {
                "open" => (open, save) = (true, None),
                "close" => (open, save) = (false, None),
                "save" if open => save = Some(d.version),
                _ => {}
            }
        }
        let Some(v) = save else { continue };
        let last = h.pubs.iter().rfind(|p| &p.uri == u);
        if last.and_then(|p| p.version) != Some(v) {
            return viol(
                "save",
                format!(
                    "{u}: the last save was of version {v}, the last published set is {:?}; stderr: {}",
                    last.map(|p| p.version),
                    tail(&o.stderr.str(), 400)
                ),
            );
        }
        cx.m.probe("last saves published");
    }
    if o.stderr.str().contains("panicked at") && sc.pipes.close_stderr_after.is_none() {
        return viol(
            "panic",
            format!(
                "a thread of the server panicked: {}",
                tail(&o.stderr.str(), 600)
            ),
        );
    }
    cx.m.probe("probe documents served");
    if !o.fired.is_empty() {
        cx.m.probe("probe documents served after faults");
    }
    None
}

// -------------------------------------------------------------------- C07
fn gen07(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C07", "lifecycle");
    vary(r, &mut sc);
    let docs = project(r, &mut sc, true);
    let mut ops = vec![];
    let pre = r.chance(1, 8);
    if !pre {
        ops = session(
            r,
            &docs,
            &SessOpt {
                min: 0,
                max: 10,
                garbage: true,
                disk: false,
                apply: false,
            },
        );
        for _ in 0..r.below(8) {
            let d = r.us(docs.len());
            ops.push(match r.below(3) {
                0 => COp::Save {
                    doc: d,
                    disk: false,
                },
                1 => COp::Request {
                    method: "none/such".into(),
                    params: json!({}),
                },
                _ => COp::Action {
                    doc: d,
                    a: 0,
                    len: 0,
                    all: true,
                },
            });
        }
    }
    if r.chance(1, 3) {
        ops.push(COp::Stall {
            ms: r.range(1, 2000),
        });
    }
    let end = r.below(9);
    match end {
        0..=2 => {
            ops.push(COp::Shutdown);
            if r.chance(1, 2) {
                ops.push(COp::Sync);
            }
            if r.chance(1, 3) {
                ops.push(COp::Sleep {
                    ms: r.range(1, 3000),
                });
            }
            ops.push(COp::Exit);
        }
        3 => {
            ops.push(COp::Shutdown);
            for _ in 0..r.range(1, 3) {
                ops.push(match r.below(4) {
                    0 => COp::Action {
                        doc: 0,
                        a: 0,
                        len: 0,
                        all: true,
                    },
                    1 => COp::Shutdown,
                    2 => COp::Save {
                        doc: 0,
                        disk: false,
                    },
                    _ => COp::Request {
                        method: "none/such".into(),
                        params: json!({}),
                    },
                });
            }
            if r.chance(1, 2) {
                ops.push(COp::Sync);
            }
            ops.push(COp::Exit);
        }
        4 => ops.push(COp::Exit),
        5 => ops.push(COp::CloseStdin),
        6 => {
            ops.push(COp::Shutdown);
            if r.chance(1, 2) {
                ops.push(COp::Sync);
            }
            ops.push(COp::CloseStdin);
        }
        7 => {
            ops.push(COp::CloseStdout);
            ops.push(COp::Sleep {
                ms: r.range(1, 100),
            });
            if r.chance(1, 2) {
                ops.push(COp::Save {
                    doc: 0,
                    disk: false,
                });
            }
            ops.push(COp::CloseStdin);
        }
        _ => {
            ops.push(COp::Shutdown);
            ops.push(COp::Exit);
            ops.push(COp::CloseStdin);
        }
    }
    if r.chance(1, 3) {
        sc.pipes.stdout_cap = *r.pick(&[16, 200, 4096]);
    }
    if r.chance(1, 4) {
        sc.pipes.chunk = r.range(1, 40) as usize;
    }
    let mut s = script(docs.iter().map(|d| docspec(d)).collect(), encodings(r), ops);
    s.auto_init = !pre;
    sc.script = Some(s);
    sc.shrink = vec!["script".into(), "tree".into()];
    sc
}
fn eval07(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s = sc.script.as_ref()?;
    let o = cx.run(sc.lsp(s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let at = |m: &str| {
        o.history
            .iter()
            .find(|e| e.dir == "send" && e.msg.contains(&format!("\"method\":\"{m}\"")))
            .map(|e| e.seq)
    };
    let (sd, ex) = (at("shutdown"), at("exit"));
    let eof = h.notes.iter().find(|n| n.1 == "stdin closed").map(|n| n.0);
    let out_closed = h.notes.iter().any(|n| n.1 == "stdout closed");
    let code = match o.status {
        Status::Exit(c) => c,
        _ => {
            if ex.is_none() && eof.is_none() {
                return None; // nothing asked the server to end (minimised script)
            }
            return viol(
                "hang",
                format!(
                    "the process did not end ({:?}); threads: {:?}",
                    o.status, o.blocked
                ),
            );
        }
    };
    let done = h.notes.iter().any(|n| n.1 == "script done");
    if ex.is_none() && eof.is_none() && !done {
        return viol(
            "early",
            format!(
                "the process ended (status {code}) before exit or end of input; stderr: {}",
                tail(&o.stderr.str(), 300)
            ),
        );
    }
    if out_closed {
        return None;
    }
    if let Some(t) = &h.tail {
        return viol(
            "cut",
            format!("the output ends within a message: {:?}", clip(t, 100)),
        );
    }
    let inited = h.reqs.iter().any(|q| q.method == "initialize");
    if inited {
        let before = sd.unwrap_or(u64::MAX).min(ex.unwrap_or(u64::MAX));
        // Requests before shutdown are answered, with the right kind of answer.
        let upto = if sd.is_some() { before } else { 0 };
        if let Some(v) = one_response(&h, upto) {
            return Some(v);
        }
        for q in h
            .reqs
            .iter()
            .filter(|q| q.seq > before && Some(q.seq) < ex.or(Some(u64::MAX)))
        {
            // After shutdown requests are errors; the first shutdown is not.
            let first = Some(q.seq) == sd;
            match q.resp.len() {
                0 => {
                    return viol(
                        "unanswered",
                        format!(
                            "{} (id {}), sent after shutdown, was never answered",
                            q.method, q.id
                        ),
                    );
                }
                1 => {}
                n => return viol("repeated", format!("{} was answered {n} times", q.method)),
            }
            let err = q.resp[0].1.get("error").is_some_and(|e| !e.is_null());
            if !first && !err {
                return viol(
                    "kind",
                    format!(
                        "{} after shutdown was answered with {}",
                        q.method,
                        clip(&q.resp[0].1.to_string(), 200)
                    ),
                );
            }
        }
        for q in h.reqs.iter().filter(|q| Some(q.seq) == sd) {
            if q.resp.len() != 1 {
                return viol(
                    "shutdown",
                    format!("shutdown was answered {} times", q.resp.len()),
                );
            }
        }
    }
    if let Some(x) = ex {
        let clean = inited && sd.is_some_and(|s| s < x);
        if clean != (code == 0) {
            return viol(
                "status",
                format!(
                    "exit {} ended with status {code}; stderr: {}",
                    if clean {
                        "after shutdown"
                    } else {
                        "without shutdown"
                    },
                    tail(&o.stderr.str(), 300)
                ),
            );
        }
        cx.m.probe("exits judged");
    }
    // Every set the client saved before the end was published (nothing lost).
    if let (Some(sd), Some(_)) = (sd, ex) {
        if inited {
            for d in h.docs.iter().filter(|d| d.what == "save" && d.seq < sd) {
                let last = h
                    .docs
                    .iter()
                    .rfind(|x| x.uri == d.uri && x.seq < sd)
                    .unwrap();
                if last.seq == d.seq
                    && is_plain(&d.text)
                    && sc.tree.keys().all(|k| !k.ends_with(".toml"))
                {
                    if !h
                        .pubs
                        .iter()
                        .any(|p| p.uri == d.uri && p.version == Some(d.version))
                    {
                        return viol(
                            "lost",
                            format!(
                                "the save of {} (version {}) before shutdown was never published",
                                d.uri, d.version
                            ),
                        );
                    }
                }
            }
        }
    }
    None
}
fn is_plain(t: &str) -> bool {
    t.is_empty()
}

// -------------------------------------------------------------------- C08
fn gen08(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C08", "framing");
    vary(r, &mut sc);
    let docs = project(r, &mut sc, true);
    let mut ops = session(
        r,
        &docs,
        &SessOpt {
            min: 3,
            max: 15,
            garbage: true,
            disk: false,
            apply: false,
        },
    );
    for k in 0..r.below(3) {
        let at = r.us(ops.len() + 1);
        let m = odd_msg(r, &docs, k);
        ops.insert(at, COp::Msg { msg: m });
    }
    close_session(&mut ops);
    sc.pipes.chunk = *r.pick(&[1, 2, 3, 7, 20, 100, 1000]);
    sc.pipes.stdin_cap = *r.pick(&[1, 10, 100, 65536]);
    sc.pipes.stdout_cap = *r.pick(&[1, 10, 100, 65536]);
    for _ in 0..r.below(4) {
        let op = *r.pick(&["read", "write", "poll"]);
        sc.faults.push(Fault {
            op: op.into(),
            path: r.pick(&["<stdin>", "<stdout>", "<stderr>"]).to_string(),
            nth: r.range(1, 30) as u32,
            act: Act::Errno(4),
        });
    }
    sc.put(
        "level",
        *r.pick(&["", "error", "warn", "info", "debug", "trace"]),
    );
    sc.script = Some(script(
        docs.iter().map(|d| docspec(d)).collect(),
        encodings(r),
        ops,
    ));
    sc.shrink = vec!["script".into(), "tree".into()];
    sc
}
fn eval08(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s = sc.script.as_ref()?;
    let mut e = sc.lsp(s);
    e.faults = sc.faults.clone();
    e.max_steps = 2_000_000;
    let lv = sc.s("level");
    if !lv.is_empty() {
        e.args = vec![
            "jarl".into(),
            "server".into(),
            "--log-level".into(),
            lv.into(),
        ];
        e.env.insert("JARL_LOG".into(), lv.into());
        e.env.insert("RUST_LOG".into(), lv.into());
        e.env.insert("RUST_BACKTRACE".into(), "1".into());
    }
    let o = cx.run(e);
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    if let Some(j) = h.junk.first() {
        return viol(
            "junk",
            format!(
                "bytes that are no message on standard output: {:?}",
                clip(j, 200)
            ),
        );
    }
    if let Some(t) = &h.tail {
        return viol(
            "cut",
            format!("the output ends within a message: {:?}", clip(t, 200)),
        );
    }
    for e in o.history.iter().filter(|e| e.dir == "recv") {
        let v: Value = serde_json::from_str(&e.msg).unwrap_or(Value::Null);
        let shape = v["jsonrpc"] == "2.0"
            && if v.get("method").is_some() {
                v["method"].is_string() && v.get("result").is_none() && v.get("error").is_none()
            } else {
                v.get("id").is_some() && (v.get("result").is_some() != v.get("error").is_some())
            };
        if !shape {
            return viol(
                "shape",
                format!("not a JSON-RPC 2.0 message: {}", clip(&e.msg, 200)),
            );
        }
    }
    let mut e = sc.lsp(s);
    e.pipes = Pipes::default();
    let o2 = cx.reference(e);
    let h2 = read_hist(&o2);
    if h.reqs.len() != h2.reqs.len() {
        return viol(
            "input",
            format!(
                "the sessions differ in their requests: {} and {}; {:?} {:?}; {} and {} steps",
                h.reqs.len(),
                h2.reqs.len(),
                o.status,
                o2.status,
                o.stats.steps,
                o2.stats.steps
            ),
        );
    }
    for (a, b) in h.reqs.iter().zip(&h2.reqs) {
        // The diagnostics an editor passes along are timing dependent.
        let (x, y) = (a.resp.first().map(|x| &x.1), b.resp.first().map(|x| &x.1));
        if x != y {
            return viol(
                "input",
                format!(
                    "{} is answered differently when input arrives in pieces: {} / {}",
                    a.method,
                    clip(&format!("{x:?}"), 200),
                    clip(&format!("{y:?}"), 200)
                ),
            );
        }
    }
    if h.reqs.len() > 1 {
        cx.m.probe("sessions compared");
    }
    None
}

// -------------------------------------------------------------------- C09
fn gen09(r: &mut Rng, _: &mut Ctx) -> Scenario {
    let mut sc = Scenario::new("C09", "readonly");
    vary(r, &mut sc);
    let docs = project(r, &mut sc, true);
    let mut ops = session(
        r,
        &docs,
        &SessOpt {
            min: 5,
            max: 20,
            garbage: true,
            disk: true,
            apply: true,
        },
    );
    ops.push(COp::Sync);
    match r.below(3) {
        0 => {
            ops.push(COp::Shutdown);
            ops.push(COp::Exit);
        }
        1 => ops.push(COp::Exit),
        _ => {}
    }
    ops.push(COp::Sleep { ms: 200 });
    ops.push(COp::CloseStdin);
    sc.script = Some(script(
        docs.iter().map(|d| docspec(d)).collect(),
        encodings(r),
        ops,
    ));
    sc.shrink = vec!["script".into(), "tree".into()];
    sc
}
pub fn mutating(o: &OpRec) -> bool {
    [
        "openw",
        "unlink",
        "mkdir",
        "rmdir",
        "rename",
        "link",
        "symlink",
        "chmod",
        "fchmod",
        "truncate",
        "ftruncate",
        "utimens",
        "chown",
    ]
    .contains(&o.op.as_str())
        || (o.op == "write" && !o.path.starts_with('<'))
}
fn eval09(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let s = sc.script.as_ref()?;
    let e = sc.lsp(s);
    let o = cx.run(e);
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    if let Some(p) = o.ops.iter().find(|p| mutating(p)) {
        return viol(
            "write",
            format!("the server performed {} on {}", p.op, p.path),
        );
    }
    // The tree the client itself left behind.
    let h = read_hist(&o);
    let mut want: BTreeMap<String, Bytes> = sc
        .tree
        .iter()
        .filter(|x| x.1.kind == Kind::File)
        .map(|(k, n)| (k.clone(), n.data.clone()))
        .collect();
    let mut op = 0usize;
    for e in &o.history {
        if e.dir == "op" {
            op = e.msg.parse().unwrap_or(0);
        }
        if e.dir == "send" && e.msg.contains("textDocument/didSave") {
            if let Some(COp::Save { doc, disk: true }) = s.ops.get(op) {
                want.insert(
                    s.docs[doc % s.docs.len()].path.clone(),
                    e.text.clone().unwrap_or_default().into(),
                );
            }
        }
    }
    let got: BTreeMap<String, Bytes> = o
        .tree
        .iter()
        .filter(|x| x.1.kind == Kind::File)
        .map(|(k, n)| (k.clone(), n.data.clone()))
        .collect();
    for (k, v) in &got {
        if k.starts_with("/w") && want.get(k) != Some(v) {
            return viol(
                "tree",
                format!("{k} is not what the client left: {:?}", clip(&v.str(), 100)),
            );
        }
    }
    for k in want.keys() {
        if !got.contains_key(k) {
            return viol("tree", format!("{k} is gone"));
        }
    }
    if h.pubs
        .iter()
        .any(|p| p.diags.as_array().is_some_and(|a| !a.is_empty()))
    {
        cx.m.probe("sessions with findings");
    }
    None
}
