//! The server's outgoing side: C10.
use super::lsp::*;
use crate::client::*;
use crate::lspgen::*;
use crate::rgen::*;
use crate::scen::*;
use crate::spec::*;
use jarl_lsp::Client;
use lsp_server::{Message, RequestId, Response, ResponseError};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C10",
        level: "exploration",
        quick: 8000,
        generate: gen10,
        eval: eval10,
        rule: "Two kinds of case. 'client': several threads share the real client object, send requests and the once-per-session notice, while other threads answer (well, with an error, twice, late, never, unknown ids) and clean up with timeouts, under random schedules that preempt between any two memory accesses; the recorded history is compared with a table of outstanding requests. 'session': whole sessions over packages above the unused-function threshold and with configurations outside the working directory; each notice is shown at most once, and exactly once when due.",
        assumptions: &[
            "The registered handler of a request is never called by this code base, so settling is observed through the log levels of the client.",
        ],
    }]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Req,
    Notice { n: u64 },
    Sleep { ms: u64 },
    Clean { ms: u64 },
    Stray { id: i64, text: bool, err: bool },
}
/// What happens to the n-th request received.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ans {
    Ok,
    Err,
    Twice,
    Late { ms: u64 },
    Never,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    threads: Vec<Vec<Step>>,
    repliers: u64,
    answers: Vec<Ans>,
    /// The receiving side goes away after so many messages (0: never).
    drop_after: u64,
}

// ------------------------------------------------- in the simulated process

thread_local! {
    static LEVELS: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}
struct Levels;
impl tracing::Subscriber for Levels {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let l = match *e.metadata().level() {
            tracing::Level::ERROR => b'E',
            tracing::Level::WARN => b'W',
            _ => return,
        };
        LEVELS.with(|v| v.borrow_mut().push(l));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn levels() -> String {
    LEVELS.with(|v| String::from_utf8_lossy(&std::mem::take(&mut *v.borrow_mut())).into_owned())
}
enum TagReq {}
impl lsp_types::request::Request for TagReq {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "test/tag";
}
/// Runs in place of the program: drives the real client object.
fn client_main() {
    let arg = std::env::args().nth(1).unwrap_or_default();
    let plan: Plan = serde_json::from_str(&arg).expect("plan");
    let _ = tracing::subscriber::set_global_default(Levels);
    let t0 = Instant::now();
    let log: Arc<Mutex<Vec<Value>>> = Default::default();
    let now = move || t0.elapsed().as_nanos() as u64;
    let (tx, rx) = crossbeam::channel::unbounded::<Message>();
    let client = Client::new(tx);
    let reply = {
        let log = log.clone();
        move |c: &Client, id: RequestId, err: bool, tag: Value| {
            let error = err.then(|| ResponseError {
                code: -32001,
                message: "no".into(),
                data: None,
            });
            let result = (!err).then(|| json!(null));
            let a = now();
            let _ = levels();
            c.handle_response(Response {
                id: id.clone(),
                result,
                error,
            });
            let l = levels();
            let b = now();
            log.lock().unwrap().push(
                json!({"e": "reply", "id": id, "err": err, "a": a, "b": b, "log": l, "tag": tag}),
            );
        }
    };
    let mut hs = vec![];
    for (ti, steps) in plan.threads.iter().cloned().enumerate() {
        let c = client.clone();
        let log = log.clone();
        let reply = reply.clone();
        hs.push(std::thread::spawn(move || {
            for (n, s) in steps.into_iter().enumerate() {
                let a = now();
                match s {
                    Step::Req => {
                        let ok = c.send_request::<TagReq>(json!([ti, n]), |_| {}).is_ok();
                        log.lock().unwrap().push(json!({"e": "req", "tag": [ti, n], "a": a, "b": now(), "ok": ok}));
                    }
                    Step::Notice { n } => {
                        let r = c.notify_unused_fn_threshold_once(n as usize);
                        log.lock().unwrap().push(json!({"e": "notice", "n": n, "a": a, "b": now(), "ok": r.is_ok(), "shown": r.unwrap_or(false)}));
                    }
                    Step::Sleep { ms } => std::thread::sleep(Duration::from_millis(ms)),
                    Step::Clean { ms } => {
                        c.cleanup_pending_requests(Duration::from_millis(ms));
                        log.lock().unwrap().push(json!({"e": "clean", "ns": ms * 1_000_000, "a": a, "b": now()}));
                    }
                    Step::Stray { id, text, err } => {
                        let id = if text { RequestId::from(id.to_string()) } else { RequestId::from(id as i32) };
                        reply(&c, id, err, json!("stray"));
                    }
                }
            }
        }));
    }
    let got = Arc::new(Mutex::new(0u64));
    for _ in 0..plan.repliers {
        let (c, log, rx, plan, got, reply) = (
            client.clone(),
            log.clone(),
            rx.clone(),
            plan.clone(),
            got.clone(),
            reply.clone(),
        );
        hs.push(std::thread::spawn(move || {
            let mut late = vec![];
            while let Ok(m) = rx.recv_timeout(Duration::from_millis(3000)) {
                let t = now();
                match m {
                    Message::Request(q) => {
                        let n = {
                            let mut g = got.lock().unwrap();
                            *g += 1;
                            *g - 1
                        };
                        log.lock().unwrap().push(json!({"e": "recv", "id": q.id, "tag": q.params, "method": q.method, "t": t}));
                        match &plan.answers[n as usize % plan.answers.len()] {
                            Ans::Ok => reply(&c, q.id, false, q.params),
                            Ans::Err => reply(&c, q.id, true, q.params),
                            Ans::Twice => {
                                reply(&c, q.id.clone(), false, q.params.clone());
                                reply(&c, q.id, n % 2 == 0, q.params);
                            }
                            Ans::Late { ms } => late.push((t + ms * 1_000_000, q)),
                            Ans::Never => {}
                        }
                        if plan.drop_after > 0 && n + 1 >= plan.drop_after {
                            break;
                        }
                    }
                    Message::Notification(n) => log.lock().unwrap().push(json!({"e": "note", "method": n.method, "params": n.params, "t": t})),
                    Message::Response(_) => log.lock().unwrap().push(json!({"e": "response"})),
                }
            }
            drop(rx);
            for (at, q) in late {
                let t = now();
                if at > t {
                    std::thread::sleep(Duration::from_nanos(at - t));
                }
                reply(&c, q.id, false, q.params);
            }
        }));
    }
    drop(rx);
    for h in hs {
        if h.join().is_err() {
            log.lock().unwrap().push(json!({"e": "panic"}));
        }
    }
    // Every request once more, then again.
    let ids: Vec<(RequestId, Value)> = log
        .lock()
        .unwrap()
        .iter()
        .filter(|v| v["e"] == "recv")
        .map(|v| {
            (
                serde_json::from_value(v["id"].clone()).unwrap(),
                v["tag"].clone(),
            )
        })
        .collect();
    for round in 0..2 {
        for (id, tag) in &ids {
            reply(&client, id.clone(), round == 0 && tag[1] == 1, tag.clone());
        }
    }
    let out = serde_json::to_string(&*log.lock().unwrap()).unwrap();
    let _ = std::io::stdout().write_all(out.as_bytes());
    let _ = std::io::stdout().flush();
}

// ------------------------------------------------------------------ the check

fn gen10(r: &mut Rng, _: &mut Ctx) -> Scenario {
    if r.chance(1, 4) {
        return gen10_session(r);
    }
    let mut sc = Scenario::new("C10", "client");
    vary(r, &mut sc);
    if let Some(Sched::Random { edge_mean, .. }) = sc.scheds.get_mut(0)
        && r.chance(1, 2)
    {
        *edge_mean = *r.pick(&[15, 40, 100]);
    }
    let times = [0u64, 1, 5, 20, 50, 100, 1000];
    let mut threads = vec![];
    for _ in 0..r.range(2, 4) {
        let mut v = vec![];
        for _ in 0..r.range(1, 6) {
            v.push(match r.below(12) {
                0..=5 => Step::Req,
                6 | 7 => Step::Notice { n: r.range(1, 200) },
                8 => Step::Sleep {
                    ms: *r.pick(&times),
                },
                9 | 10 => Step::Clean {
                    ms: *r.pick(&times),
                },
                _ => Step::Stray {
                    id: *r.pick(&[-1, 0, 77, 1, 2]),
                    text: r.chance(1, 2),
                    err: r.chance(1, 2),
                },
            });
        }
        threads.push(v);
    }
    let mut answers = vec![];
    for _ in 0..r.range(1, 6) {
        answers.push(match r.below(7) {
            0 | 1 => Ans::Ok,
            2 => Ans::Err,
            3 => Ans::Twice,
            4 => Ans::Late {
                ms: *r.pick(&times),
            },
            _ => Ans::Never,
        });
    }
    // A stray answer may hit a real id: only text ids and impossible ones are certain.
    let repliers = r.range(1, 2);
    let drop_after = if r.chance(1, 10) { r.range(1, 3) } else { 0 };
    sc.put(
        "plan",
        Plan {
            threads,
            repliers,
            answers,
            drop_after,
        },
    );
    sc
}
fn eval10(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    if sc.kind == "session" {
        return eval10_session(sc, cx);
    }
    let plan: Plan = sc.get("plan")?;
    let e = sc.cli(&[serde_json::to_string(&plan).unwrap()]);
    let o = cx.run_main(e, client_main);
    if o.status != Status::Exit(0) {
        return viol(
            "crash",
            format!(
                "the threads ended with {:?}: {}",
                o.status,
                clip(&o.stderr.str(), 300)
            ),
        );
    }
    let log: Vec<Value> = serde_json::from_str(&o.stdout.str()).unwrap_or_default();
    if log.iter().any(|v| v["e"] == "panic") {
        return viol("panic", clip(&o.stderr.str(), 300));
    }
    let u = |v: &Value, k: &str| v[k].as_u64().unwrap_or(0);
    let dropped = plan.drop_after > 0;
    // Every request sent is received once, each with an id of its own.
    let mut ids = BTreeMap::new();
    let mut tags = BTreeSet::new();
    for v in log.iter().filter(|v| v["e"] == "recv") {
        if let Some(w) = ids.insert(v["id"].to_string(), v.clone()) {
            return viol(
                "ids",
                format!(
                    "id {} was used for two requests: {} and {}",
                    v["id"], w["tag"], v["tag"]
                ),
            );
        }
        if !tags.insert(v["tag"].to_string()) {
            return viol("sent-twice", format!("{v}"));
        }
        if v["method"] != "test/tag" {
            return viol("method", format!("{v}"));
        }
    }
    let reqs: Vec<&Value> = log.iter().filter(|v| v["e"] == "req").collect();
    for q in &reqs {
        if !dropped && (q["ok"] != true || !tags.contains(&q["tag"].to_string())) {
            return viol("lost", format!("request {q} never reached the client"));
        }
    }
    // The notice.
    let notices: Vec<&Value> = log.iter().filter(|v| v["e"] == "notice").collect();
    let shown: Vec<&&Value> = notices.iter().filter(|v| v["shown"] == true).collect();
    let msgs: Vec<&Value> = log
        .iter()
        .filter(|v| v["e"] == "note" && v["method"] == "window/showMessage")
        .collect();
    if shown.len() > 1 || msgs.len() > 1 {
        return viol(
            "notice",
            format!(
                "the once-per-session notice was shown {} times ({} messages)",
                shown.len(),
                msgs.len()
            ),
        );
    }
    if !dropped && !notices.is_empty() {
        if shown.len() != 1 || msgs.len() != 1 {
            return viol(
                "notice",
                format!(
                    "{} calls, shown {} times, {} messages",
                    notices.len(),
                    shown.len(),
                    msgs.len()
                ),
            );
        }
        let t = msgs[0]["params"]["message"].as_str().unwrap_or("");
        if !t
            .split(|c: char| !c.is_ascii_digit())
            .any(|w| w == shown[0]["n"].to_string())
        {
            return viol(
                "notice",
                format!("the notice for {} says {t:?}", shown[0]["n"]),
            );
        }
    }
    // Settling: the table of outstanding requests.
    let cleans: Vec<&Value> = log.iter().filter(|v| v["e"] == "clean").collect();
    let replies: Vec<&Value> = log.iter().filter(|v| v["e"] == "reply").collect();
    for v in &replies {
        let l = v["log"].as_str().unwrap_or("");
        let known = !l.contains('W');
        let errs = l.matches('E').count();
        if errs != usize::from(known && v["err"] == true) {
            return viol(
                "error-reply",
                format!("a reply ({}) with error={} logged {l:?}", v["id"], v["err"]),
            );
        }
        let Some(recv) = ids.get(&v["id"].to_string()) else {
            let n = v["id"].as_i64().unwrap_or(-1);
            if known && (v["id"].is_string() || n <= 0 || n > reqs.len() as i64 + 1000) {
                return viol(
                    "unknown",
                    format!("a reply to {}, which was never sent, was accepted", v["id"]),
                );
            }
            continue;
        };
        let (a, b) = (u(v, "a"), u(v, "b"));
        let Some(q) = reqs.iter().find(|q| q["tag"] == recv["tag"]) else {
            continue;
        };
        let (s0, s1) = (u(q, "a"), u(recv, "t"));
        if known && b < s0 {
            return viol(
                "unknown",
                format!(
                    "a reply to {}, which was not sent yet, was accepted",
                    v["id"]
                ),
            );
        }
        let early = a < s1;
        // Other replies to this id.
        let mut before = false;
        let mut around = false;
        for w in &replies {
            if std::ptr::eq(*w, *v)
                || w["id"] != v["id"]
                || w["log"].as_str().unwrap_or("").contains('W')
            {
                continue;
            }
            if known {
                return viol(
                    "settled-twice",
                    format!("two replies to {} were both accepted", v["id"]),
                );
            }
            before |= u(w, "b") <= a;
            around |= u(w, "a") <= b;
        }
        let mut must = false;
        let mut may = false;
        for c in &cleans {
            let (ca, cb, ns) = (u(c, "a"), u(c, "b"), u(c, "ns"));
            must |= cb <= a && ca >= s1 && ca - s1 > ns;
            may |= ca <= b && cb.saturating_sub(s0) > ns;
        }
        if known && must {
            return viol(
                "not-forgotten",
                format!(
                    "request {} of {} older than the timeout survived the clean-up; {cleans:?}",
                    v["id"], s0
                ),
            );
        }
        if !known && !before && !around && !may && !early {
            return viol(
                "forgotten",
                format!(
                    "the reply to {} ({}..{}, sent {s0}..{s1}) was taken for an unknown one; {cleans:?}",
                    v["id"], a, b
                ),
            );
        }
    }
    let senders: BTreeSet<String> = reqs.iter().map(|q| q["tag"][0].to_string()).collect();
    if senders.len() > 1 {
        cx.m.probe("requests from several threads");
    }
    if !cleans.is_empty()
        && replies
            .iter()
            .any(|v| v["tag"] != "stray" && v["log"].as_str().unwrap_or("").contains('W'))
    {
        cx.m.probe("replies to forgotten or settled requests");
    }
    None
}

// ------------------------------------------------------------------ sessions
fn gen10_session(r: &mut Rng) -> Scenario {
    let mut sc = Scenario::new("C10", "session");
    vary(r, &mut sc);
    let pkg = r.chance(3, 4);
    let dir = if pkg { "/w/R" } else { "/w/s" };
    if pkg {
        sc.file("/w/DESCRIPTION", "Package: foo\nVersion: 0.1\n");
        sc.file("/w/NAMESPACE", "export(foo)\n");
    }
    let th = r.below(4);
    // Where the configuration lives: the working directory, above or below it.
    let cfg = *r.pick(&[
        "/w/jarl.toml",
        "/jarl.toml",
        "/w/R/jarl.toml",
        "/w/s/jarl.toml",
        "/.jarl.toml",
        "/w/.jarl.toml",
        "/w/R/.jarl.toml",
        "/home/u/.config/jarl/jarl.toml",
        "",
    ]);
    if !cfg.is_empty() {
        sc.file(cfg, format!("[lint]\nextend-select = [\"CORR\"]\n[lint.unused_function]\nthreshold-ignore = {th}\n"));
    }
    let nd = r.range(2, 4) as usize;
    let mut docs = vec![];
    for i in 0..nd {
        let p = format!("{dir}/f{i}.R");
        let mut t = String::new();
        let many = if r.chance(1, 40) {
            r.range(40, 130)
        } else {
            r.range(0, 3)
        };
        for k in 0..many {
            t.push_str(&format!("fn{i}_{k} <- function(x) x\n"));
        }
        sc.file(&p, t);
        docs.push(p);
    }
    let mut ops = vec![];
    let mut open = vec![false; nd];
    for _ in 0..r.range(3, 16) {
        let d = r.us(nd);
        if !open[d] {
            let text = sc.tree[&docs[d]].data.str().into_owned();
            ops.push(COp::Open { doc: d, text });
            open[d] = true;
            continue;
        }
        match r.below(8) {
            0 => {
                ops.push(COp::Close { doc: d });
                open[d] = false;
            }
            1 => ops.push(COp::Action {
                doc: d,
                a: 0,
                len: 0,
                all: true,
            }),
            2 => ops.push(COp::Sleep {
                ms: *r.pick(&[1, 20, 300]),
            }),
            _ => ops.push(COp::Save {
                doc: d,
                disk: false,
            }),
        }
    }
    sc.script = Some(script(
        docs.iter().map(|d| docspec(d)).collect(),
        vec![],
        ops,
    ));
    sc.shrink = vec!["script".into(), "tree".into()];
    sc
}
fn eval10_session(sc: &Scenario, cx: &mut Ctx) -> Option<Viol> {
    let mut s = sc.script.clone()?;
    close_session(&mut s.ops);
    let o = cx.run(sc.lsp(&s));
    if let Some(v) = ended_badly(&o) {
        return Some(v);
    }
    let h = read_hist(&o);
    let mut unused = vec![];
    let mut config = vec![];
    for (seq, v) in &h.shows {
        let t = v["params"]["message"].as_str().unwrap_or("").to_string();
        if t.contains("unused_function") {
            unused.push((*seq, t));
        } else if t.contains("jarl.toml") {
            config.push((*seq, t));
        }
    }
    if unused.len() > 1 {
        return viol(
            "unused-notice",
            format!("shown {} times: {unused:?}", unused.len()),
        );
    }
    if config.len() > 1 {
        return viol(
            "config-notice",
            format!("shown {} times: {config:?}", config.len()),
        );
    }
    // When they are due.
    let conf = |dir: &str| {
        ["/w/R", "/w/s", "/w", "/home/u/.config/jarl", ""]
            .iter()
            .filter(|d| dir == **d || dir.starts_with(&format!("{d}/")) || d.starts_with("/home"))
            .flat_map(|d| [format!("{d}/jarl.toml"), format!("{d}/.jarl.toml")])
            .find(|p| sc.tree.contains_key(p))
    };
    let first_open = h.docs.iter().find(|d| d.what == "open");
    let dir = first_open.map(|d| {
        if d.uri.contains("/w/R/") {
            "/w/R"
        } else {
            "/w/s"
        }
    });
    if let (Some(dir), Some(_)) = (dir, first_open) {
        // "/jarl.toml" has precedence over the user's one, being an ancestor.
        let c = if sc.tree.contains_key("/jarl.toml") {
            Some("/jarl.toml".to_string())
        } else {
            conf(dir)
        };
        let due = c
            .as_ref()
            .is_some_and(|c| c != "/w/jarl.toml" && c != "/w/.jarl.toml");
        if due != (config.len() == 1) {
            return viol(
                "config-notice",
                format!("configuration {c:?} of {dir}, messages {config:?}"),
            );
        }
        if due && !config[0].1.contains(c.as_deref().unwrap_or("?")) {
            return viol(
                "config-notice",
                format!("configuration {c:?}, message {}", config[0].1),
            );
        }
        if due {
            cx.m.probe("configuration notice due");
        }
        // Unused functions: every function is unused here.
        let total: usize = sc
            .tree
            .iter()
            .filter(|(p, _)| p.starts_with("/w/R/f"))
            .map(|(_, n)| n.data.str().matches("function(").count())
            .sum();
        let th = c
            .as_ref()
            .and_then(|c| sc.tree.get(c))
            .and_then(|n| {
                n.data
                    .str()
                    .trim()
                    .rsplit(' ')
                    .next()
                    .and_then(|x| x.parse().ok())
            })
            .unwrap_or(50usize);
        let saved = h.docs.iter().any(|d| d.what == "save");
        let pkg = sc.tree.contains_key("/w/DESCRIPTION") && sc.tree.contains_key("/w/NAMESPACE");
        let due = pkg && c.is_some() && dir == "/w/R" && saved && total > th;
        if due != (unused.len() == 1) {
            return viol(
                "unused-notice",
                format!(
                    "{total} unused functions, threshold {th}, a document was saved: {saved}; messages {unused:?}"
                ),
            );
        }
        if due {
            cx.m.probe("unused-function notice due");
            if !unused[0]
                .1
                .split(|c: char| !c.is_ascii_digit())
                .any(|w| w == total.to_string())
            {
                return viol(
                    "unused-notice",
                    format!("{total} unused functions: {}", unused[0].1),
                );
            }
        }
    }
    None
}
