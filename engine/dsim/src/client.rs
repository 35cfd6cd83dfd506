//! The simulated editor: a writer thread that performs a script and a reader
//! thread that consumes the server's output. Both run under the scheduler.
use crate::rt::{self, block, event, g, wake};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Enc {
    Utf8,
    Utf16,
    Utf32,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct DocSpec {
    pub path: String,
    pub lang: String,
}

/// An edit relative to the client's text at the time it is performed:
/// character index `a` modulo the length, then `len` characters.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct EditSpec {
    pub a: u64,
    pub len: u64,
    pub text: String,
    /// Replace the whole text without a range.
    #[serde(default)]
    pub full: bool,
    /// Express positions that fall on a line end this far past it.
    #[serde(default)]
    pub past: u32,
    /// The edit stays this many characters away from the start and the end.
    #[serde(default)]
    pub lo: u64,
    #[serde(default)]
    pub hi: u64,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum COp {
    Open {
        doc: usize,
        text: String,
    },
    Edit {
        doc: usize,
        edits: Vec<EditSpec>,
    },
    /// Save; `disk` also stores the text in the file, as an editor does.
    Save {
        doc: usize,
        disk: bool,
    },
    Close {
        doc: usize,
    },
    /// Code actions for a range; `all`: the whole document.
    Action {
        doc: usize,
        a: u64,
        len: u64,
        all: bool,
    },
    /// Apply an action of the last code-action answer for the document.
    Apply {
        doc: usize,
        pick: u64,
    },
    Request {
        method: String,
        params: Value,
    },
    Notify {
        method: String,
        params: Value,
    },
    /// A response the server never asked for.
    Respond {
        id: i64,
        error: bool,
    },
    Cancel {
        back: u64,
    },
    /// Change the disk behind the server's back.
    Disk {
        path: String,
        node: Option<Node>,
    },
    Sleep {
        ms: u64,
    },
    /// No more faults from now on.
    Heal,
    /// Wait until every request sent so far is answered (up to 60 s).
    Sync,
    /// The reader stops reading for this long.
    Stall {
        ms: u64,
    },
    Shutdown,
    Exit,
    CloseStdin,
    CloseStdout,
    Raw {
        bytes: Bytes,
    },
    /// Any well-formed JSON message.
    Msg {
        msg: Value,
    },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Script {
    pub docs: Vec<DocSpec>,
    /// Encodings offered; empty: the capability is absent.
    pub encodings: Vec<String>,
    pub root: String,
    pub auto_init: bool,
    /// Reopened documents start at version 1 again.
    #[serde(default)]
    pub restart_versions: bool,
    /// How far the first version of a document is from 1.
    #[serde(default)]
    pub first: i64,
    /// Versions left out after each one.
    #[serde(default)]
    pub skip: i64,
    pub ops: Vec<COp>,
}

#[derive(Default, Clone)]
struct Doc {
    open: bool,
    text: String,
    version: i64,
}

struct Cl {
    script: Script,
    docs: Vec<Doc>,
    next_id: i64,
    pending: BTreeMap<String, ()>,
    responses: BTreeMap<String, Value>,
    last_action: BTreeMap<usize, (i64, i64)>,
    published: BTreeMap<String, Value>,
    enc: Enc,
    stall_until: u64,
    inbuf: Vec<u8>,
    ended: bool,
}
static mut CL: *mut Cl = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn cl() -> &'static mut Cl {
    unsafe { &mut *CL }
}

pub fn uri_of(path: &str) -> String {
    let mut s = String::from("file://");
    for b in path.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'.' | b'-' | b'_' | b'~' => {
                s.push(b as char)
            }
            _ => s.push_str(&format!("%{b:02X}")),
        }
    }
    s
}

pub fn units(s: &str, e: Enc) -> usize {
    match e {
        Enc::Utf8 => s.len(),
        Enc::Utf16 => s.chars().map(|c| c.len_utf16()).sum(),
        Enc::Utf32 => s.chars().count(),
    }
}
/// Byte ranges of the lines, without their terminators.
pub fn lines(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut start = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\n' => {
                v.push((start, i));
                i += 1;
                start = i;
            }
            b'\r' => {
                v.push((start, i));
                i += if b.get(i + 1) == Some(&b'\n') { 2 } else { 1 };
                start = i;
            }
            _ => i += 1,
        }
    }
    v.push((start, b.len()));
    v
}
/// (line, column) of a byte offset. Offsets inside a terminator count as the
/// end of the line.
pub fn pos_of(t: &str, off: usize, e: Enc) -> (u64, u64) {
    let ls = lines(t);
    let mut k = 0;
    for (i, l) in ls.iter().enumerate() {
        if l.0 <= off {
            k = i;
        }
    }
    let (s, en) = ls[k];
    (k as u64, units(&t[s..off.min(en)], e) as u64)
}
/// Byte offset of a position, as the protocol defines it.
pub fn off_of(t: &str, line: u64, ch: u64, e: Enc) -> Option<usize> {
    let ls = lines(t);
    let (s, en) = *ls.get(line as usize)?;
    let mut u = 0u64;
    for (i, c) in t[s..en].char_indices() {
        if u >= ch {
            return if u == ch { Some(s + i) } else { None };
        }
        u += match e {
            Enc::Utf8 => c.len_utf8() as u64,
            Enc::Utf16 => c.len_utf16() as u64,
            Enc::Utf32 => 1,
        };
    }
    if u > ch { None } else { Some(en) }
}
pub fn range_off(t: &str, r: &Value, e: Enc) -> Option<(usize, usize)> {
    let p = |k: &str| {
        let x = &r[k];
        off_of(t, x["line"].as_u64()?, x["character"].as_u64()?, e)
    };
    Some((p("start")?, p("end")?))
}
/// Like `range_off` but columns past the end of a line are an error.
pub fn range_off_strict(t: &str, r: &Value, e: Enc) -> Option<(usize, usize)> {
    let (a, b) = range_off(t, r, e)?;
    for (k, o) in [("start", a), ("end", b)] {
        let (l, c) = pos_of(t, o, e);
        if r[k]["line"].as_u64() != Some(l) || r[k]["character"].as_u64() != Some(c) {
            return None;
        }
    }
    Some((a, b))
}

fn jpos(p: (u64, u64)) -> Value {
    json!({"line": p.0, "character": p.1})
}

pub fn start(script: Script) {
    let n = script.docs.len();
    let c = Box::new(Cl {
        docs: vec![
            Doc {
                version: i64::MIN,
                ..Doc::default()
            };
            n
        ],
        script,
        next_id: 1,
        pending: BTreeMap::new(),
        responses: BTreeMap::new(),
        last_action: BTreeMap::new(),
        published: BTreeMap::new(),
        enc: Enc::Utf16,
        stall_until: 0,
        inbuf: vec![],
        ended: false,
    });
    unsafe { CL = Box::into_raw(c) };
    rt::spawn_actor("client-writer", Box::new(writer));
    rt::spawn_actor("client-reader", Box::new(reader));
}

fn reader() {
    loop {
        let c = cl();
        if c.stall_until > g().now {
            let ns = c.stall_until - g().now;
            rt::sleep_ns(ns);
            continue;
        }
        let s = g();
        if s.stdout.closed_r {
            return;
        }
        if s.stdout.buf.is_empty() {
            block("client-read", rt::KEY_STDOUT_R, u32::MAX, rt::NEVER);
            continue;
        }
        let k = s.stdout.buf.len();
        let k = s.stdout.amount(k);
        let chunk: Vec<u8> = s.stdout.buf.drain(..k).collect();
        s.out.extend_from_slice(&chunk);
        cl().inbuf.extend_from_slice(&chunk);
        parse_frames();
        wake(rt::KEY_STDOUT_W, u32::MAX, usize::MAX);
        wake(rt::KEY_HIST, u32::MAX, usize::MAX);
        rt::point("client-read-done", k as u64);
    }
}

/// At process end: what is left in the pipe still reaches the client.
pub fn drain() {
    if unsafe { CL.is_null() } {
        return;
    }
    let s = g();
    if s.stdout.closed_r {
        return;
    }
    let rest: Vec<u8> = s.stdout.buf.drain(..).collect();
    s.out.extend_from_slice(&rest);
    cl().inbuf.extend_from_slice(&rest);
    parse_frames();
    let c = cl();
    if !c.inbuf.is_empty() {
        let l = String::from_utf8_lossy(&c.inbuf).into_owned();
        event("tail", l, None);
    }
}

fn parse_frames() {
    let c = cl();
    loop {
        let Some(h) = find(&c.inbuf, b"\r\n\r\n") else {
            if c.inbuf.len() > 4096 {
                let l = String::from_utf8_lossy(&c.inbuf).into_owned();
                c.inbuf.clear();
                event("junk", l, None);
            }
            return;
        };
        let head = String::from_utf8_lossy(&c.inbuf[..h]).into_owned();
        let mut len = None;
        let mut ok = true;
        for l in head.split("\r\n") {
            if let Some(v) = l.strip_prefix("Content-Length: ") {
                ok &= len.is_none();
                len = v.parse::<usize>().ok();
                ok &= len.is_some();
            } else if !l.starts_with("Content-Type: ") {
                ok = false;
            }
        }
        let (Some(len), true) = (len, ok) else {
            let l = String::from_utf8_lossy(&c.inbuf[..h + 4]).into_owned();
            c.inbuf.drain(..h + 4);
            event("junk", l, None);
            continue;
        };
        if c.inbuf.len() < h + 4 + len {
            return;
        }
        let body: Vec<u8> = c.inbuf[h + 4..h + 4 + len].to_vec();
        c.inbuf.drain(..h + 4 + len);
        let txt = String::from_utf8_lossy(&body).into_owned();
        match serde_json::from_slice::<Value>(&body) {
            Ok(v) if v.is_object() => {
                incoming(&v);
                event("recv", txt, None);
            }
            _ => {
                event("junk", txt, None);
            }
        }
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn incoming(v: &Value) {
    let c = cl();
    if v.get("method").is_some() {
        if v["method"] == "textDocument/publishDiagnostics" {
            let u = v["params"]["uri"].as_str().unwrap_or("").to_string();
            c.published.insert(u, v["params"]["diagnostics"].clone());
        }
        return;
    }
    if v.get("id").is_some() {
        let id = v["id"].to_string();
        c.pending.remove(&id);
        c.responses.insert(id.clone(), v.clone());
        if id == "1" {
            c.enc = match v["result"]["capabilities"]["positionEncoding"].as_str() {
                Some("utf-8") => Enc::Utf8,
                Some("utf-32") => Enc::Utf32,
                _ => Enc::Utf16,
            };
        }
    }
}

fn send_bytes(b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        let s = g();
        if s.stdin.closed_r || s.stdin.closed_w {
            return;
        }
        let space = s.stdin.cap.saturating_sub(s.stdin.buf.len());
        if space == 0 {
            block("client-write", rt::KEY_STDIN_W, u32::MAX, rt::NEVER);
            continue;
        }
        let k = s.stdin.amount((b.len() - i).min(space));
        s.stdin.buf.extend(&b[i..i + k]);
        i += k;
        wake(rt::KEY_STDIN_R, u32::MAX, usize::MAX);
        rt::point("client-write-done", k as u64);
    }
}
fn send(v: &Value, text: Option<String>) {
    let s = v.to_string();
    let f = format!("Content-Length: {}\r\n\r\n{}", s.len(), s);
    event("send", s, text);
    send_bytes(f.as_bytes());
}
fn request(method: &str, params: Value, text: Option<String>) -> i64 {
    let c = cl();
    let id = c.next_id;
    c.next_id += 1;
    c.pending.insert(id.to_string(), ());
    let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
    if !params.is_null() {
        m["params"] = params;
    }
    send(&m, text);
    id
}
fn notify(method: &str, params: Value, text: Option<String>) {
    let mut m = json!({"jsonrpc": "2.0", "method": method});
    if !params.is_null() {
        m["params"] = params;
    }
    send(&m, text);
}
fn wait_for(id: Option<i64>, ms: u64) -> bool {
    let until = g().now + ms * 1_000_000;
    loop {
        let c = cl();
        let done = match id {
            Some(i) => c.responses.contains_key(&i.to_string()),
            None => c.pending.is_empty(),
        };
        if done {
            return true;
        }
        if g().now >= until {
            return false;
        }
        block("client-wait", rt::KEY_HIST, u32::MAX, until);
    }
}

pub fn char_off(t: &str, n: u64) -> usize {
    t.char_indices()
        .nth(n as usize)
        .map(|x| x.0)
        .unwrap_or(t.len())
}

/// The content change for one edit, and the text after it.
fn make_change(text: &str, e: &EditSpec, enc: Enc) -> (Value, String) {
    if e.full {
        return (json!({"text": e.text}), e.text.clone());
    }
    let n = text.chars().count() as u64;
    let lo = e.lo.min(n);
    let hi = e.hi.min(n - lo);
    let m = n - lo - hi;
    let a = lo + e.a % (m + 1);
    let b = (a + e.len).min(lo + m);
    let mut oa = char_off(text, a);
    let mut ob = char_off(text, b);
    // Positions exist only at line ends, not inside a CR LF pair.
    let inside = |o: usize| {
        o > 0 && o < text.len() && text.as_bytes()[o - 1] == b'\r' && text.as_bytes()[o] == b'\n'
    };
    if inside(oa) {
        oa -= 1;
    }
    if inside(ob) {
        ob += 1;
    }
    let (mut pa, mut pb) = (pos_of(text, oa, enc), pos_of(text, ob, enc));
    let ls = lines(text);
    if e.past > 0 {
        if ls[pa.0 as usize].1 == oa {
            pa.1 += e.past as u64;
        }
        if ls[pb.0 as usize].1 == ob {
            pb.1 += e.past as u64;
        }
    }
    let new = format!("{}{}{}", &text[..oa], e.text, &text[ob..]);
    let mut v = json!({"range": {"start": jpos(pa), "end": jpos(pb)}, "text": e.text});
    // Deprecated, but sent by common editors: in UTF-16 units.
    if (e.a ^ e.len ^ n) & 1 == 0 {
        v["rangeLength"] = json!(text[oa..ob].encode_utf16().count());
    }
    (v, new)
}

fn doc_uri(d: usize) -> String {
    uri_of(&cl().script.docs[d].path)
}

fn init() {
    let c = cl();
    let mut caps = json!({"textDocument": {"codeAction": {"dynamicRegistration": false}}});
    if !c.script.encodings.is_empty() {
        caps["general"] = json!({"positionEncodings": c.script.encodings});
    }
    let root = uri_of(&c.script.root);
    let id = request(
        "initialize",
        json!({"processId": null, "rootUri": root, "capabilities": caps,
               "workspaceFolders": [{"uri": root, "name": "w"}]}),
        None,
    );
    if !wait_for(Some(id), 60_000) {
        event("note", "initialize unanswered".into(), None);
    }
    notify("initialized", json!({}), None);
}

fn writer() {
    if cl().script.auto_init {
        init();
    }
    let ops = cl().script.ops.clone();
    for (i, op) in ops.iter().enumerate() {
        event("op", format!("{i}"), None);
        perform(op);
    }
    cl().ended = true;
    event("note", "script done".into(), None);
    for _ in 0..4 {
        rt::sleep_ns(60_000_000_000);
    }
    rt::finish(Status::Hang);
}

fn perform(op: &COp) {
    let c = cl();
    let nd = c.docs.len();
    match op {
        COp::Open { doc, text } => {
            let d = doc % nd;
            let dd = &mut c.docs[d];
            if dd.open {
                return;
            }
            dd.open = true;
            dd.version = if c.script.restart_versions || dd.version == i64::MIN {
                1 + c.script.first
            } else {
                dd.version + 1 + c.script.skip
            };
            dd.text = text.clone();
            let v = dd.version;
            let lang = c.script.docs[d].lang.clone();
            notify(
                "textDocument/didOpen",
                json!({"textDocument": {"uri": doc_uri(d), "languageId": lang, "version": v, "text": text}}),
                Some(text.clone()),
            );
        }
        COp::Edit { doc, edits } => {
            let d = doc % nd;
            if !c.docs[d].open {
                return;
            }
            let mut ch = vec![];
            let mut t = c.docs[d].text.clone();
            for e in edits {
                let (v, n) = make_change(&t, e, c.enc);
                ch.push(v);
                t = n;
            }
            c.docs[d].text = t.clone();
            c.docs[d].version += 1 + c.script.skip;
            let v = c.docs[d].version;
            notify(
                "textDocument/didChange",
                json!({"textDocument": {"uri": doc_uri(d), "version": v}, "contentChanges": ch}),
                Some(t),
            );
        }
        COp::Save { doc, disk } => {
            let d = doc % nd;
            if !c.docs[d].open {
                return;
            }
            let t = c.docs[d].text.clone();
            if *disk {
                let p = c.script.docs[d].path.clone();
                g().vfs.put(&p, &Node::file(t.as_str()));
            }
            notify(
                "textDocument/didSave",
                json!({"textDocument": {"uri": doc_uri(d)}}),
                Some(t),
            );
        }
        COp::Close { doc } => {
            let d = doc % nd;
            if !c.docs[d].open {
                return;
            }
            c.docs[d].open = false;
            notify(
                "textDocument/didClose",
                json!({"textDocument": {"uri": doc_uri(d)}}),
                None,
            );
        }
        COp::Action { doc, a, len, all } => {
            let d = doc % nd;
            let t = c.docs[d].text.clone();
            let n = t.chars().count() as u64;
            let (oa, ob) = if *all {
                (0, t.len())
            } else {
                let a = a % (n + 1);
                (char_off(&t, a), char_off(&t, (a + len).min(n)))
            };
            let r =
                json!({"start": jpos(pos_of(&t, oa, c.enc)), "end": jpos(pos_of(&t, ob, c.enc))});
            let u = doc_uri(d);
            let diags = c.published.get(&u).cloned().unwrap_or(json!([]));
            let open = c.docs[d].open;
            let ver = c.docs[d].version;
            let id = request(
                "textDocument/codeAction",
                json!({"textDocument": {"uri": u}, "range": r, "context": {"diagnostics": diags}}),
                if open { Some(t) } else { None },
            );
            cl().last_action.insert(d, (id, ver));
        }
        COp::Apply { doc, pick } => {
            let d = doc % nd;
            let Some(&(id, ver)) = c.last_action.get(&d) else {
                return;
            };
            wait_for(Some(id), 60_000);
            let c = cl();
            if !c.docs[d].open || c.docs[d].version != ver {
                return;
            }
            let Some(r) = c.responses.get(&id.to_string()) else {
                return;
            };
            let Some(acts) = r["result"].as_array().cloned() else {
                return;
            };
            if acts.is_empty() {
                return;
            }
            let a = &acts[(*pick % acts.len() as u64) as usize];
            let t = c.docs[d].text.clone();
            event("apply", a.to_string(), Some(t.clone()));
            let Some(edits) = a["edit"]["changes"][doc_uri(d)].as_array() else {
                return;
            };
            let mut es: Vec<(usize, usize, String)> = vec![];
            for e in edits {
                if let Some((x, y)) = range_off(&t, &e["range"], c.enc) {
                    es.push((x, y, e["newText"].as_str().unwrap_or("").to_string()));
                }
            }
            es.sort_by(|a, b| b.0.cmp(&a.0));
            let mut n = t.clone();
            let mut ch = vec![];
            for (x, y, s) in es {
                if x > y || y > n.len() {
                    return;
                }
                ch.push(json!({"range": {"start": jpos(pos_of(&n, x, c.enc)), "end": jpos(pos_of(&n, y, c.enc))}, "text": s}));
                n.replace_range(x..y, &s);
            }
            c.docs[d].text = n.clone();
            c.docs[d].version += 1 + c.script.skip;
            let v = c.docs[d].version;
            notify(
                "textDocument/didChange",
                json!({"textDocument": {"uri": doc_uri(d), "version": v}, "contentChanges": ch}),
                Some(n),
            );
        }
        COp::Request { method, params } => {
            request(method, params.clone(), None);
        }
        COp::Notify { method, params } => notify(method, params.clone(), None),
        COp::Respond { id, error } => {
            let m = if *error {
                json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "no"}})
            } else {
                json!({"jsonrpc": "2.0", "id": id, "result": null})
            };
            send(&m, None);
        }
        COp::Cancel { back } => {
            let id = c.next_id - 1 - (*back as i64 % c.next_id.max(1));
            notify("$/cancelRequest", json!({"id": id}), None);
        }
        COp::Disk { path, node } => {
            event("disk", path.clone(), None);
            match node {
                Some(n) => g().vfs.put(path, n),
                None => g().vfs.remove_tree(path),
            }
        }
        COp::Sleep { ms } => rt::sleep_ns(ms * 1_000_000),
        COp::Heal => g().ex.faults.clear(),
        COp::Sync => {
            if !wait_for(None, 60_000) {
                let p: Vec<_> = cl().pending.keys().collect();
                event("note", format!("sync timeout {p:?}"), None);
            }
        }
        COp::Stall { ms } => {
            let until = g().now + ms * 1_000_000;
            cl().stall_until = until;
        }
        COp::Shutdown => {
            request("shutdown", Value::Null, None);
        }
        COp::Exit => notify("exit", Value::Null, None),
        COp::CloseStdin => {
            event("note", "stdin closed".into(), None);
            g().stdin.closed_w = true;
            wake(rt::KEY_STDIN_R, u32::MAX, usize::MAX);
        }
        COp::CloseStdout => {
            event("note", "stdout closed".into(), None);
            g().stdout.closed_r = true;
            wake(rt::KEY_STDOUT_W, u32::MAX, usize::MAX);
            wake(rt::KEY_STDOUT_R, u32::MAX, usize::MAX);
        }
        COp::Msg { msg } => {
            if msg.get("id").is_some() && msg.get("method").is_some() {
                c.pending.insert(msg["id"].to_string(), ());
            }
            send(msg, None);
        }
        COp::Raw { bytes } => {
            event("raw", bytes.str().into_owned(), None);
            send_bytes(&bytes.0);
        }
    }
    rt::point("client-op", 0);
}
