//! Generated editor sessions, and reading of recorded ones.
use crate::client::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// What runs vary in addition to the script.
pub fn vary(r: &mut Rng, sc: &mut Scenario) {
    sc.cpus = *r.pick(&[1, 2, 2, 3, 4, 4, 8]);
    sc.hseed = r.next() >> 20;
    sc.dirseed = if r.chance(1, 2) { r.next() >> 20 } else { 0 };
    sc.scheds = vec![sched(r)];
}
pub fn sched(r: &mut Rng) -> Sched {
    if r.chance(1, 12) {
        return Sched::Default;
    }
    let starve = if r.chance(1, 4) {
        Some(r.below(10) as u32)
    } else {
        None
    };
    Sched::Random {
        seed: r.next() >> 12,
        p_sync: *r.pick(&[0, 20, 100, 300, 500]),
        edge_mean: *r.pick(&[0, 0, 300, 2000, 20000]),
        starve,
        starve_steps: *r.pick(&[100, 300, 1000]),
    }
}
pub fn encodings(r: &mut Rng) -> Vec<String> {
    let v: &[&[&str]] = &[
        &[],
        &["utf-16"],
        &["utf-8"],
        &["utf-8", "utf-16"],
        &["utf-16", "utf-8"],
        &["utf-32"],
        &["utf-32", "utf-16"],
        &["utf-32", "utf-8", "utf-16"],
    ];
    r.pick(v).iter().map(|s| s.to_string()).collect()
}
pub fn edit(a: u64, len: u64, text: &str) -> EditSpec {
    EditSpec {
        a,
        len,
        text: text.into(),
        full: false,
        past: 0,
        lo: 0,
        hi: 0,
    }
}

// ---------------------------------------------- documents that show all of
// their text: one finding whose fix quotes everything between two markers.

pub const STR_PRE: &str = "any(is.na(\"";
pub const STR_POST: &str = "\"))";

pub fn str_piece(r: &mut Rng, eol: &str) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 8) {
        match r.below(10) {
            0 | 1 => s.push_str(eol),
            2 | 3 => s.push_str(r.pick(UNI)),
            4 => s.push(' '),
            5 => s.push(if r.chance(1, 3) { '\r' } else { '\t' }),
            6 => s.push_str(r.pick(&[
                "\u{2028}",
                "\u{85}",
                "\u{c}",
                "\u{b}",
                "\u{feff}",
                "\u{10ffff}",
            ])),
            _ => s.push_str(r.pick(&["a", "bc", "def", "0", "x <- 1", "#"])),
        }
    }
    s
}
/// The text before/after the string of a document, by flavour.
pub fn str_frame(rmd: bool, eol: &str, r: &mut Rng) -> (String, String) {
    let tail = if r.chance(1, 3) {
        "".to_string()
    } else {
        eol.to_string()
    };
    if rmd {
        (
            format!("# é title{eol}{eol}```{{r}}{eol}{STR_PRE}"),
            format!("{STR_POST}{eol}```{tail}"),
        )
    } else {
        let head = match r.below(4) {
            0 => format!("# ü😀{eol}"),
            1 => format!("x <- 1{eol}{eol}"),
            _ => String::new(),
        };
        (format!("{head}{STR_PRE}"), format!("{STR_POST}{tail}"))
    }
}
/// What must be found in such a document: (start, end, quoted text).
pub fn str_expect(t: &str) -> Option<(usize, usize, String)> {
    let a = t.find(STR_PRE)?;
    let b = t[a + STR_PRE.len()..].find('"')? + a + STR_PRE.len();
    if !t[b..].starts_with(STR_POST) {
        return None;
    }
    Some((a, b + STR_POST.len(), t[a + STR_PRE.len()..b].to_string()))
}

// ------------------------------------------------------------ reading runs

#[derive(Clone, Debug)]
pub struct Req {
    pub seq: u64,
    pub id: Value,
    pub method: String,
    pub params: Value,
    pub text: Option<String>,
    /// (seq, response) of every response with this id.
    pub resp: Vec<(u64, Value)>,
}
#[derive(Clone, Debug)]
pub struct Pubd {
    pub seq: u64,
    pub t: u64,
    pub uri: String,
    pub version: Option<i64>,
    pub diags: Value,
}
#[derive(Clone, Debug)]
pub struct DocEv {
    pub seq: u64,
    pub uri: String,
    /// open, change, save, close
    pub what: &'static str,
    pub version: i64,
    pub text: String,
}
#[derive(Default)]
pub struct Hist {
    pub reqs: Vec<Req>,
    pub stray: Vec<Value>,
    pub pubs: Vec<Pubd>,
    pub docs: Vec<DocEv>,
    pub shows: Vec<(u64, Value)>,
    pub other: Vec<(u64, Value)>,
    pub junk: Vec<String>,
    pub tail: Option<String>,
    pub notes: Vec<(u64, String)>,
    pub disks: Vec<(u64, usize)>,
    pub applies: Vec<(u64, Value, String)>,
    pub enc: Option<Enc>,
    pub end_seq: u64,
    pub cur_op: usize,
}
pub fn read_hist(o: &Outcome) -> Hist {
    let mut h = Hist::default();
    let mut ver: BTreeMap<String, (i64, String)> = BTreeMap::new();
    for e in &o.history {
        h.end_seq = e.seq;
        match e.dir.as_str() {
            "send" => {
                let v: Value = serde_json::from_str(&e.msg).unwrap_or(Value::Null);
                let m = v["method"].as_str().unwrap_or("").to_string();
                if v.get("id").is_some() && v.get("method").is_some() {
                    h.reqs.push(Req {
                        seq: e.seq,
                        id: v["id"].clone(),
                        method: m,
                        params: v["params"].clone(),
                        text: e.text.clone(),
                        resp: vec![],
                    });
                } else {
                    let td = &v["params"]["textDocument"];
                    let uri = td["uri"].as_str().unwrap_or("").to_string();
                    let what = match m.as_str() {
                        "textDocument/didOpen" => "open",
                        "textDocument/didChange" => "change",
                        "textDocument/didSave" => "save",
                        "textDocument/didClose" => "close",
                        _ => continue,
                    };
                    let Some(text) = e.text.clone().or(if what == "close" {
                        Some(String::new())
                    } else {
                        None
                    }) else {
                        continue;
                    };
                    if let Some(n) = td["version"].as_i64() {
                        ver.insert(uri.clone(), (n, text.clone()));
                    }
                    let version = ver.get(&uri).map(|x| x.0).unwrap_or(0);
                    h.docs.push(DocEv {
                        seq: e.seq,
                        uri,
                        what,
                        version,
                        text,
                    });
                }
            }
            "recv" => {
                let v: Value = serde_json::from_str(&e.msg).unwrap_or(Value::Null);
                match v["method"].as_str() {
                    Some("textDocument/publishDiagnostics") => h.pubs.push(Pubd {
                        seq: e.seq,
                        t: e.t,
                        uri: v["params"]["uri"].as_str().unwrap_or("").into(),
                        version: v["params"]["version"].as_i64(),
                        diags: v["params"]["diagnostics"].clone(),
                    }),
                    Some("window/showMessage") => h.shows.push((e.seq, v)),
                    Some(_) => h.other.push((e.seq, v)),
                    None => {
                        if let Some(q) = h.reqs.iter_mut().find(|q| q.id == v["id"]) {
                            if q.method == "initialize" {
                                h.enc = Some(match v["result"]["capabilities"]["positionEncoding"]
                                    .as_str()
                                {
                                    Some("utf-8") => Enc::Utf8,
                                    Some("utf-32") => Enc::Utf32,
                                    _ => Enc::Utf16,
                                });
                            }
                            q.resp.push((e.seq, v));
                        } else {
                            h.stray.push(v);
                        }
                    }
                }
            }
            "junk" => h.junk.push(e.msg.clone()),
            "tail" => h.tail = Some(e.msg.clone()),
            "note" => h.notes.push((e.seq, e.msg.clone())),
            "op" => h.cur_op = e.msg.parse().unwrap_or(0),
            "disk" => {
                let c = h.cur_op;
                h.disks.push((e.seq, c))
            }
            "apply" => h.applies.push((
                e.seq,
                serde_json::from_str(&e.msg).unwrap_or(Value::Null),
                e.text.clone().unwrap_or_default(),
            )),
            _ => {}
        }
    }
    h
}
impl Hist {
    pub fn encoding(&self) -> Enc {
        self.enc.unwrap_or(Enc::Utf16)
    }
    /// The client's text at a version, the last one before an event.
    pub fn text_before(&self, uri: &str, version: i64, seq: u64) -> Option<&DocEv> {
        self.docs.iter().rfind(|d| {
            d.seq < seq
                && d.uri == uri
                && d.version == version
                && (d.what == "open" || d.what == "change")
        })
    }
    /// The client's text at a version.
    pub fn text_at(&self, uri: &str, version: i64) -> Option<&DocEv> {
        self.docs.iter().rfind(|d| {
            d.uri == uri && d.version == version && (d.what == "open" || d.what == "change")
        })
    }
}

pub fn ended_badly(o: &Outcome) -> Option<Viol> {
    match &o.status {
        Status::Signal(n) => viol(
            "crash",
            format!(
                "the server was terminated by signal {n}; stderr: {}",
                tail(&o.stderr.str(), 400)
            ),
        ),
        Status::Deadlock => viol(
            "deadlock",
            format!("no thread can continue: {:?}", o.blocked),
        ),
        _ => None,
    }
}
pub fn tail(s: &str, n: usize) -> String {
    let k = s.len().saturating_sub(n);
    let mut k = k;
    while !s.is_char_boundary(k) {
        k += 1;
    }
    s[k..].to_string()
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}

/// What a fresh session, with only this document, says about it.
pub struct Oracle {
    memo: BTreeMap<u64, (Option<Value>, Vec<Value>)>,
}
impl Oracle {
    pub fn new() -> Oracle {
        Oracle {
            memo: BTreeMap::new(),
        }
    }
    /// Diagnostics after opening and saving `text`, and the answers to the
    /// given code-action parameters.
    pub fn ask(
        &mut self,
        cx: &mut Ctx,
        sc: &Scenario,
        tree: &Tree,
        path: &str,
        text: &str,
        encs: &[String],
        acts: &[Value],
    ) -> (Option<Value>, Vec<Value>) {
        let key = {
            let mut h = hash_bytes(1, path.as_bytes());
            h = hash_bytes(h, text.as_bytes());
            h = hash_bytes(h, encs.join(",").as_bytes());
            h = hash_bytes(h, serde_json::to_string(tree).unwrap().as_bytes());
            hash_bytes(h, serde_json::to_string(acts).unwrap().as_bytes())
        };
        if let Some(v) = self.memo.get(&key) {
            return v.clone();
        }
        let mut ops = vec![
            COp::Open {
                doc: 0,
                text: text.into(),
            },
            COp::Save {
                doc: 0,
                disk: false,
            },
            COp::Sleep { ms: 50 },
        ];
        for a in acts {
            ops.push(COp::Request {
                method: "textDocument/codeAction".into(),
                params: a.clone(),
            });
        }
        ops.push(COp::Sync);
        ops.push(COp::CloseStdin);
        let script = Script {
            docs: vec![DocSpec {
                path: path.into(),
                lang: "r".into(),
            }],
            encodings: encs.to_vec(),
            root: sc.cwd.clone(),
            auto_init: true,
            restart_versions: false,
            first: 0,
            skip: 0,
            ops,
        };
        let mut e = sc.lsp(&script);
        e.tree = tree.clone();
        e.pipes = Pipes::default();
        e.cpus = 1;
        e.seed = 1;
        e.dirseed = 0;
        let o = cx.reference(e);
        let h = read_hist(&o);
        let uri = uri_of(path);
        let d = h
            .pubs
            .iter()
            .rfind(|p| p.uri == uri && p.version == Some(1))
            .map(|p| p.diags.clone());
        let mut res = vec![];
        for q in h
            .reqs
            .iter()
            .filter(|q| q.method == "textDocument/codeAction")
        {
            res.push(
                q.resp
                    .first()
                    .map(|r| r.1.clone())
                    .map(|mut v| {
                        if let Some(o) = v.as_object_mut() {
                            o.remove("id");
                        }
                        v
                    })
                    .unwrap_or(Value::Null),
            );
        }
        self.memo.insert(key, (d.clone(), res.clone()));
        (d, res)
    }
}

/// Check a diagnostics array against the findings known for the text.
pub fn diags_match(diags: &Value, text: &str, exp: &[Finding], enc: Enc) -> Result<(), String> {
    let Some(a) = diags.as_array() else {
        return Err("no diagnostics array".into());
    };
    let mut got: Vec<(usize, usize, String, String)> = vec![];
    for d in a {
        let Some((s, e)) = range_off_strict(text, &d["range"], enc) else {
            return Err(format!(
                "range {} does not denote a place in the text",
                d["range"]
            ));
        };
        let rule = d["data"]["rule_name"].as_str().unwrap_or("").to_string();
        let fix = d["data"]["content"].as_str().unwrap_or("").to_string();
        got.push((s, e, rule, fix));
    }
    got.sort();
    let mut want: Vec<(usize, usize, String, String)> = exp
        .iter()
        .map(|f| {
            (
                f.start,
                f.end,
                f.rule.clone(),
                f.fix.clone().unwrap_or_default(),
            )
        })
        .collect();
    want.sort();
    if got != want {
        for g in &got {
            if !want.contains(g) {
                return Err(format!(
                    "unexpected finding {} at {}..{} {:?} (fix {:?})",
                    g.2,
                    g.0,
                    g.1,
                    text.get(g.0..g.1).unwrap_or("?"),
                    g.3
                ));
            }
        }
        for w in &want {
            if !got.contains(w) {
                return Err(format!(
                    "missing finding {} at {}..{} {:?} (fix {:?})",
                    w.2,
                    w.0,
                    w.1,
                    text.get(w.0..w.1).unwrap_or("?"),
                    w.3
                ));
            }
        }
        return Err("duplicated findings".into());
    }
    Ok(())
}

// ---------------------------------------------------- projects and sessions

pub fn fun_defs(r: &mut Rng, k: u64) -> String {
    let mut s = String::new();
    for _ in 0..r.below(k + 1) {
        let n = r.below(6);
        if r.chance(1, 10) {
            s.push_str("# jarl-ignore unused_function: kept\n");
        }
        match r.below(4) {
            0 => s.push_str(&format!("use_it(fn{n})\n")),
            1 => s.push_str(&format!("fn{n} <- function(x) fn{}(x)\n", r.below(6))),
            _ => s.push_str(&format!("fn{n} <- function(x) x\n")),
        }
    }
    s
}
/// Some text of an R or R Markdown document.
pub fn doc_text(r: &mut Rng, path: &str, on_only: bool, max: u64) -> String {
    let rmd = is_rmd(path);
    let d = GDoc {
        path: path.into(),
        eol: if r.chance(1, 4) { "\r\n" } else { "\n" }.into(),
        last_eol: r.chance(3, 4),
        rmd,
    };
    let n = r.below(max + 1);
    let bs: Vec<Blk> = (0..n).map(|_| blk(r, rmd, on_only)).collect();
    let mut t = render_doc(&d, &bs).0;
    if !on_only && r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let c = corpus(r).replace('\n', &d.eol);
            if !t.is_empty() && !t.ends_with('\n') {
                t.push_str(&d.eol);
            }
            t.push_str(&if rmd {
                format!("```{{r}}{e}{c}{e}```{e}", e = d.eol)
            } else {
                format!("{c}{}", d.eol)
            });
        }
    }
    if !rmd && path.contains("/R/") {
        t = format!("{}{t}", fun_defs(r, 3).replace('\n', &d.eol));
    }
    t
}
pub const BROKEN: &[&str] = &[
    "x <- (",
    "if (",
    "f <- function( {",
    "}\n",
    "a b c\n",
    "'abc",
    "x <- \"é\n",
];

/// A configuration under which rules that look at a whole package run.
pub fn corr_toml(r: &mut Rng) -> String {
    let sel = *r.pick(&[
        "extend-select = [\"CORR\"]",
        "extend-select = [\"CORR\"]",
        "extend-select = [\"unused_function\"]",
        "select = [\"unused_function\", \"any_is_na\"]",
        "select = [\"CORR\"]",
        "select = [\"ALL\"]",
        "select = [\"PERF\"]\nextend-select = [\"duplicated_function_definition\", \"CORR\"]",
        "extend-select = [\"CORR\"]\nexclude = [\"R/b.R\"]",
        "extend-select = [\"CORR\"]\nexclude = [\"c.R\"]",
    ]);
    let th = if r.chance(3, 4) {
        format!(
            "[lint.unused_function]\nthreshold-ignore = {}\n",
            r.below(6)
        )
    } else {
        String::new()
    };
    format!("[lint]\n{sel}\n{th}")
}

/// A project on disk; returns the paths of the documents in it.
pub fn project(r: &mut Rng, sc: &mut Scenario, cfg: bool) -> Vec<String> {
    let mut v: Vec<&str> = match r.below(3) {
        0 => vec!["/w/a.R", "/w/b.R", "/w/s/c.R", "/w/d.Rmd"],
        1 => {
            let dep = *r.pick(&[
                "",
                "Depends: R (>= 3.5.0)\n",
                "Depends: R (>= 4.4)\n",
                "Depends:\n    R (>= 4.1.0),\n    methods\n",
            ]);
            sc.file(
                "/w/DESCRIPTION",
                format!("Package: foo\nVersion: 0.1\n{dep}"),
            );
            if r.chance(1, 2) {
                sc.file("/w/NAMESPACE", format!("export(fn{})\n", r.below(6)));
            }
            if r.chance(1, 8) {
                // Links that lead back.
                sc.tree.insert("/w/tests".into(), Node::dir());
                for (l, to) in [
                    ("R/l1", "."),
                    ("R/l4", ".."),
                    ("tests/l2", "."),
                    ("tests/l3", ".."),
                ] {
                    if r.chance(1, 2) {
                        sc.tree.insert(format!("/w/{l}"), Node::link(to));
                    }
                }
            }
            vec![
                "/w/R/a.R",
                "/w/R/b.R",
                "/w/R/c.R",
                "/w/tests/testthat/test-a.R",
            ]
        }
        _ => vec!["/w/a.R", "/w/s/b.R", "/w/s/t/c.R", "/w/s/e.qmd"],
    };
    r.shuffle(&mut v);
    let k = r.range(1, 4) as usize;
    let out: Vec<String> = v[..k].iter().map(|s| s.to_string()).collect();
    for p in &v {
        if r.chance(4, 5) {
            let t = doc_text(r, p, false, 4);
            sc.file(p, t);
        }
    }
    if cfg && sc.tree.contains_key("/w/DESCRIPTION") && r.chance(1, 2) {
        let t = corr_toml(r);
        sc.file(
            *r.pick(&[
                "/w/jarl.toml",
                "/w/jarl.toml",
                "/w/R/jarl.toml",
                "/w/.jarl.toml",
            ]),
            t,
        );
        return out;
    }
    if cfg {
        for p in [
            "/w/jarl.toml",
            "/w/s/jarl.toml",
            "/w/R/.jarl.toml",
            "/home/u/.config/jarl/jarl.toml",
            "/jarl.toml",
        ] {
            if r.chance(1, 5) {
                let t = toml(r);
                sc.file(p, t);
            }
        }
    }
    out
}

#[derive(Clone, Default)]
pub struct SessOpt {
    pub min: u64,
    pub max: u64,
    /// Documents with syntax errors or no R at all.
    pub garbage: bool,
    pub disk: bool,
    pub apply: bool,
}
/// A session of an editor with the given documents.
pub fn session(r: &mut Rng, docs: &[String], o: &SessOpt) -> Vec<COp> {
    let nd = docs.len();
    let mut open = vec![false; nd];
    let mut ops = vec![];
    let text = |r: &mut Rng, d: usize| {
        if o.garbage && r.chance(1, 6) {
            let t = doc_text(r, &docs[d], false, 2);
            format!("{t}{}", r.pick(BROKEN))
        } else {
            doc_text(r, &docs[d], false, 4)
        }
    };
    for _ in 0..r.range(o.min, o.max) {
        let d = r.us(nd);
        if !open[d] {
            let t = text(r, d);
            ops.push(COp::Open { doc: d, text: t });
            open[d] = true;
            continue;
        }
        match r.below(16) {
            0..=3 => {
                let mut es = vec![];
                for _ in 0..r.range(1, 3) {
                    if r.chance(1, 3) {
                        let t = text(r, d);
                        es.push(EditSpec {
                            full: true,
                            ..edit(0, 0, &t)
                        });
                    } else {
                        let t = if o.garbage && r.chance(1, 4) {
                            r.pick(BROKEN).to_string()
                        } else {
                            r.pick(&["", "x", "é", " ", "\n", "# c\n", "any(is.na(y))\n", "😀"])
                                .to_string()
                        };
                        es.push(edit(r.next() >> 40, *r.pick(&[0, 0, 1, 3, 10]), &t));
                    }
                }
                ops.push(COp::Edit { doc: d, edits: es });
            }
            4..=7 => ops.push(COp::Save {
                doc: d,
                disk: o.disk && r.chance(1, 2),
            }),
            8..=10 => ops.push(COp::Action {
                doc: d,
                a: r.next() >> 40,
                len: r.below(40),
                all: r.chance(1, 3),
            }),
            11 => {
                ops.push(COp::Close { doc: d });
                open[d] = false;
            }
            12 if o.apply => {
                ops.push(COp::Action {
                    doc: d,
                    a: 0,
                    len: 0,
                    all: true,
                });
                ops.push(COp::Apply {
                    doc: d,
                    pick: r.next() >> 40,
                });
            }
            13 => ops.push(COp::Cancel { back: r.below(3) }),
            14 => ops.push(COp::Sleep { ms: r.range(1, 30) }),
            _ => {
                ops.push(COp::Edit {
                    doc: d,
                    edits: vec![edit(r.next() >> 40, 0, "y")],
                });
                ops.push(COp::Save {
                    doc: d,
                    disk: false,
                });
            }
        }
    }
    ops
}
