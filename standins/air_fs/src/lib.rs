//! Offline stand-in for air's `fs` crate.
use std::path::{Path, PathBuf};

fn cwd() -> PathBuf {
    std::env::current_dir().unwrap_or_else(|_| PathBuf::from("."))
}

pub fn relativize_path<P: AsRef<Path>>(path: P) -> String {
    let path = path.as_ref();
    let cwd = cwd();
    match path.strip_prefix(&cwd) {
        Ok(p) => format!("{}", p.display()),
        Err(_) => format!("{}", path.display()),
    }
}
