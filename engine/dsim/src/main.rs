#![allow(static_mut_refs, unused_imports, dead_code, clippy::missing_safety_doc)]
#![allow(
    invalid_runtime_symbol_definitions,
    suspicious_runtime_symbol_definitions
)]
mod arena;
mod client;
mod drive;
mod exec;
#[path = "gen.rs"]
mod rgen;

mod cligen;
mod hooks;
mod lspgen;
mod props;
mod rt;
mod scen;
mod spec;
mod sys;
mod vfs;

// The program under test is the real main.rs.
use jarl::{logging, output_format, status};
mod jarl_main {
    include!("/repo/crates/jarl/src/main.rs");
    pub fn call() -> ExitCode {
        main()
    }
}

fn program() {
    // A panic has been reported by the hook; std then exits with 101.
    let Ok(code) = std::panic::catch_unwind(jarl_main::call) else {
        std::process::exit(101)
    };
    // What std does when main returns: clean up, then exit.
    let code: u8 = unsafe { std::mem::transmute(code) };
    std::process::exit(code as i32);
}

fn reexec() {
    // Fixed address-space layout and room for 300 arguments.
    let pad = std::env::var("DSIM_CHILD").is_ok();
    if pad {
        return;
    }
    sys::disable_aslr();
    let me = std::ffi::CString::new("/proc/self/exe").unwrap();
    let mut args: Vec<std::ffi::CString> = std::env::args()
        .map(|a| std::ffi::CString::new(a).unwrap())
        .collect();
    for _ in 0..300 {
        args.push(c"".into());
    }
    let mut ap: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
    ap.push(std::ptr::null());
    let mut env: Vec<std::ffi::CString> = std::env::vars()
        .filter(|(k, _)| k.starts_with("VERIF") || k.starts_with("DSIM"))
        .map(|(k, v)| std::ffi::CString::new(format!("{k}={v}")).unwrap())
        .collect();
    env.push(c"DSIM_CHILD=1".into());
    let mut ep: Vec<*const libc::c_char> = env.iter().map(|a| a.as_ptr()).collect();
    ep.push(std::ptr::null());
    unsafe { libc::execve(me.as_ptr(), ap.as_ptr(), ep.as_ptr()) };
    rt::harness_fail("execve");
}

fn main() {
    reexec();
    rt::init_real();
    let args: Vec<String> = std::env::args().skip(1).filter(|a| !a.is_empty()).collect();
    unsafe { rt::COV = sys::mmap_shared(rt::COV_LEN) };
    match args.first().map(|s| s.as_str()) {
        Some("smoke") => {
            let mut r = exec::Runner::new(program);
            let mut t = spec::Tree::new();
            t.insert("/w/a.R".into(), spec::Node::file("any(is.na(x))\n"));
            t.insert("/w/b.R".into(), spec::Node::file("x = 1\nany(is.na(y))\n"));
            let a: Vec<String> = ["jarl", "check", ".", "--allow-no-vcs"]
                .iter()
                .map(|s| s.to_string())
                .chain(args[1..].iter().cloned())
                .collect();
            let mut ex = spec::Exec::cli(&t, "/w", &a);
            ex.trace = true;
            let o = r.run(&ex);
            sys::out(&format!(
                "{:?}\n--- out\n{}\n--- err\n{}\n",
                o.status,
                o.stdout.str(),
                o.stderr.str()
            ));
            for l in &o.trace {
                sys::out(&format!("{l}\n"));
            }
            sys::out(&format!("{:?}\n{:?}\n{:?}\n", o.stats, o.tree, o.blocked));
        }
        // dsim cli LIST ARGS...: run the program on a copy of the listed files, as /w.
        Some("cli") => {
            let mut r = exec::Runner::new(program);
            let mut t = spec::Tree::new();
            t.insert("/w".into(), spec::Node::dir());
            // A list of files, as printed by `find DIR -type f`, after DIR itself.
            let list =
                String::from_utf8(sys::read_file(&args[1]).unwrap_or_default()).unwrap_or_default();
            let mut l = list.lines();
            let dir = l.next().unwrap_or("").to_string();
            for f in l {
                let data = sys::read_file(f).unwrap_or_default();
                t.insert(
                    format!("/w{}", f.strip_prefix(&dir).unwrap_or(f)),
                    spec::Node {
                        kind: spec::Kind::File,
                        data: spec::Bytes(data),
                        mode: 0o644,
                    },
                );
            }
            let trace = args.iter().any(|a| a == "--trace");
            let a: Vec<String> = std::iter::once("jarl".to_string())
                .chain(args[2..].iter().filter(|a| *a != "--trace").cloned())
                .collect();
            let mut ex = spec::Exec::cli(&t, "/w", &a);
            ex.trace = trace;
            let o = r.run(&ex);
            for l in &o.trace {
                sys::out(&format!("{l}\n"));
            }
            sys::out(&format!(
                "{:?}\n--- out\n{}\n--- err\n{}\n",
                o.status,
                o.stdout.str(),
                o.stderr.str()
            ));
            for (p, n) in &o.tree {
                if t.get(p) != Some(n) {
                    sys::out(&format!("--- {p}\n{}\n", n.data.str()));
                }
            }
        }
        Some("lspsmoke") => {
            use client::*;
            let mut r = exec::Runner::new(program);
            let mut t = spec::Tree::new();
            t.insert("/w/a.R".into(), spec::Node::file("any(is.na(x))\n"));
            let a: Vec<String> = ["jarl", "server"].iter().map(|s| s.to_string()).collect();
            let mut ex = spec::Exec::cli(&t, "/w", &a);
            ex.actor = spec::Actor::Lsp(Script {
                docs: vec![DocSpec {
                    path: "/w/a.R".into(),
                    lang: "r".into(),
                }],
                encodings: vec![],
                root: "/w".into(),
                auto_init: true,
                restart_versions: false,
                first: 0,
                skip: 0,
                ops: vec![
                    COp::Open {
                        doc: 0,
                        text: "any(is.na(x))\n".into(),
                    },
                    COp::Save { doc: 0, disk: true },
                    COp::Edit {
                        doc: 0,
                        edits: vec![EditSpec {
                            a: 0,
                            len: 0,
                            text: "x = 1; any(is.na('é😀'))\n".into(),
                            full: false,
                            past: 0,
                            lo: 0,
                            hi: 0,
                        }],
                    },
                    COp::Save { doc: 0, disk: true },
                    COp::Sleep { ms: 100 },
                    COp::Action {
                        doc: 0,
                        a: 0,
                        len: 0,
                        all: true,
                    },
                    COp::Apply { doc: 0, pick: 0 },
                    COp::Shutdown,
                    COp::Sync,
                    COp::Exit,
                ],
            });
            let o = r.run(&ex);
            for e in &o.history {
                sys::out(&format!(
                    "#{} t={}us {} {}\n",
                    e.seq,
                    (e.t - rt::T0) / 1000,
                    e.dir,
                    e.msg
                ));
            }
            sys::out(&format!(
                "{:?}\n--- out\n{}\n--- err\n{}\n",
                o.status,
                "",
                o.stderr.str()
            ));
            sys::out(&format!("{:?}\n{:?}\n", o.stats, o.blocked));
        }
        Some("snips") => {
            let mut r = exec::Runner::new(program);
            for sn in rgen::SNIPS {
                let mut t = spec::Tree::new();
                let src = rgen::subst(sn.src, "xx");
                t.insert("/w/a.R".into(), spec::Node::file(format!("{src}\n")));
                let a: Vec<String> = [
                    "jarl",
                    "check",
                    "a.R",
                    "--allow-no-vcs",
                    "--output-format",
                    "json",
                    "--select",
                    "ALL",
                    "-m",
                    "4.5.0",
                ]
                .iter()
                .map(|s| s.to_string())
                .collect();
                let o = r.run(&spec::Exec::cli(&t, "/w", &a));
                let v: serde_json::Value = serde_json::from_slice(&o.stdout.0).unwrap_or_default();
                let mut l = vec![];
                for d in v["diagnostics"].as_array().cloned().unwrap_or_default() {
                    let (s, e) = (
                        d["range"][0].as_u64().unwrap_or(0) as usize,
                        d["range"][1].as_u64().unwrap_or(0) as usize,
                    );
                    l.push(format!("{} {:?}", d["message"]["name"], src.get(s..e)));
                }
                let mut b = a.clone();
                b[4] = "--output-format".into();
                b.push("--fix".into());
                if !sn.safe {
                    b.push("--unsafe-fixes".into());
                }
                let o2 = r.run(&spec::Exec::cli(&t, "/w", &b));
                let fx = o2.tree["/w/a.R"].data.str().into_owned();
                sys::out(&format!(
                    "{:<45} want {:<22} {:?}\n      got {:?} {}\n",
                    src,
                    sn.rule,
                    sn.fix.map(|f| rgen::subst(f, "xx")),
                    l,
                    fx.trim_end()
                ));
                if l.is_empty() {
                    sys::out(&format!("{} {}\n", o.stdout.str(), o.stderr.str()));
                }
            }
        }
        Some("list") => {
            for c in props::all() {
                sys::out(&format!("{}\n", c.id));
            }
        }
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let cks = props::all();
            let Some(ck) = cks.iter().find(|c| c.id == id) else {
                sys::err("dsim: no such property\n");
                sys::exit_group(2);
            };
            let env = |k: &str| std::env::var(k).ok();
            let tier = env("VERIF_TIER").unwrap_or("quick".into());
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            let quick = tier != "thorough";
            let o = drive::Opts {
                tier: if quick {
                    "quick".into()
                } else {
                    "thorough".into()
                },
                seed,
                workers: env("DSIM_WORKERS")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(sys::cpus().len().clamp(1, 16)),
                secs: env("DSIM_SECS")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(if quick { 60 } else { 600 }),
                cases: env("DSIM_CASES")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(if quick { ck.quick } else { u64::MAX }),
                evidence: env("DSIM_NOEV").is_none(),
            };
            let c = drive::check(ck, program, &o);
            sys::exit_group(c);
        }
        Some("replay") => {
            let c = drive::replay(
                &props::all(),
                program,
                args.get(1).map(|s| s.as_str()).unwrap_or(""),
                args.iter().any(|a| a == "--trace"),
            );
            sys::exit_group(c);
        }
        Some("determinism") => {
            let n = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(200);
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let only: Vec<String> = args[2.min(args.len())..].to_vec();
            let cks: Vec<_> = props::all()
                .into_iter()
                .filter(|c| only.is_empty() || only.iter().any(|x| x == c.id))
                .collect();
            let c = drive::determinism(&cks, program, seed, n);
            sys::exit_group(c);
        }
        _ => {
            sys::err(
                "usage: dsim check ID | replay FILE [--trace] | determinism [N] [ID...] | list\n",
            );
            sys::exit_group(2);
        }
    }
}
