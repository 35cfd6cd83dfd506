//! Offline stand-in for the part of `insta` used here: inline and file
//! snapshots, compared after insta's whitespace normalisation.
use std::path::{Path, PathBuf};

fn norm(s: &str) -> String {
    s.replace("\r\n", "\n").trim_end().to_string()
}
fn min_indent(s: &str) -> usize {
    s.lines()
        .skip(1)
        .filter(|l| !l.trim().is_empty())
        .map(|l| l.chars().count() - l.trim_start().chars().count())
        .min()
        .unwrap_or(0)
}
fn norm_inline(s: &str) -> String {
    let s = norm(s);
    let n = min_indent(&s);
    let out: Vec<String> = s
        .lines()
        .enumerate()
        .map(|(i, l)| if i == 0 { l.to_string() } else { l.chars().skip(n).collect() })
        .skip_while(|l| l.trim().is_empty())
        .collect();
    out.join("\n").trim_end().to_string()
}
fn cmp(exp: &str, got: &str, what: &str) {
    let clean = |s: &str| s.trim_matches('\n').lines().map(|l| l.trim_end().to_string()).collect::<Vec<_>>().join("\n");
    if clean(exp) != clean(got) && clean(exp) != clean(&norm_inline(&format!("x\n{got}")).replacen("x\n", "", 1)) {
        panic!("snapshot mismatch: {what}\n---- expected\n{exp}\n---- got\n{got}\n----");
    }
}
pub fn check_inline(got: &str, exp: &str, loc: &str) {
    cmp(&norm_inline(exp), &norm(got), loc);
    let _ = loc;
}
pub fn check_file(got: &str, name: Option<&str>, file: &str, manifest: &str, module: &str, func: &str) {
    let mut p = PathBuf::from(std::env::var("INSTA_ROOT").unwrap_or_else(|_| "/repo".into()));
    p.push(file.strip_prefix("/repo/").unwrap_or(file));
    let dir = p.parent().unwrap().join("snapshots");
    let m = module.replace("::", "__");
    let f = match name {
        Some(n) => n.to_string(),
        None => {
            let f = func.rsplit("::").next().unwrap_or(func);
            f.strip_prefix("test_").unwrap_or(f).to_string()
        }
    };
    let path = dir.join(format!("{m}__{f}.snap"));
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| panic!("no snapshot {}: {e}", path.display()));
    let body = text.splitn(3, "---\n").nth(2).unwrap_or("");
    let _ = manifest;
    cmp(&norm(body), &norm(got), &path.display().to_string());
}
#[macro_export]
macro_rules! _function_name {
    () => {{
        fn f() {}
        fn type_name_of<T>(_: T) -> &'static str {
            std::any::type_name::<T>()
        }
        let mut n = type_name_of(f).strip_suffix("::f").unwrap_or("");
        while let Some(r) = n.strip_suffix("::{{closure}}") {
            n = r;
        }
        n
    }};
}
#[macro_export]
macro_rules! assert_snapshot {
    ($v:expr, @$e:literal $(,)?) => { $crate::check_inline(&($v).to_string(), $e, concat!(file!(), ":", line!())) };
    ($v:expr, $d:expr, @$e:literal $(,)?) => { $crate::check_inline(&($v).to_string(), $e, concat!(file!(), ":", line!())) };
    ($n:literal, $v:expr $(,)?) => {
        $crate::check_file(&($v).to_string(), Some($n), file!(), env!("CARGO_MANIFEST_DIR"), module_path!(), $crate::_function_name!())
    };
    ($v:expr $(,)?) => {
        $crate::check_file(&($v).to_string(), None, file!(), env!("CARGO_MANIFEST_DIR"), module_path!(), $crate::_function_name!())
    };
}
pub use std::path::Path as _Path;
