//! Offline stand-in for `ignore` 0.4: gitignore-style overrides and a
//! sequential and a multi-threaded directory walker over `std::fs`.
use std::collections::VecDeque;
use std::ffi::OsStr;
use std::fmt;
use std::fs::{FileType, Metadata};
use std::io;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};

pub mod gitignore;
pub mod overrides;
use gitignore::Gitignore;
use overrides::Override;

#[derive(Debug)]
pub enum Error {
    WithPath { path: PathBuf, err: Box<Error> },
    WithDepth { depth: usize, err: Box<Error> },
    Glob { glob: Option<String>, err: String },
    Io(io::Error),
    Partial(Vec<Error>),
}
impl Error {
    pub fn is_io(&self) -> bool {
        self.io_error().is_some()
    }
    pub fn is_partial(&self) -> bool {
        matches!(self, Error::Partial(_))
    }
    pub fn io_error(&self) -> Option<&io::Error> {
        match self {
            Error::WithPath { err, .. } | Error::WithDepth { err, .. } => err.io_error(),
            Error::Io(e) => Some(e),
            _ => None,
        }
    }
    pub fn into_io_error(self) -> Option<io::Error> {
        match self {
            Error::WithPath { err, .. } | Error::WithDepth { err, .. } => err.into_io_error(),
            Error::Io(e) => Some(e),
            _ => None,
        }
    }
    pub fn depth(&self) -> Option<usize> {
        match self {
            Error::WithPath { err, .. } => err.depth(),
            Error::WithDepth { depth, .. } => Some(*depth),
            _ => None,
        }
    }
    fn at(e: io::Error, p: &Path, depth: usize) -> Error {
        Error::WithDepth {
            depth,
            err: Box::new(Error::WithPath { path: p.to_path_buf(), err: Box::new(Error::Io(e)) }),
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::WithPath { path, err } => write!(f, "{}: {}", path.display(), err),
            Error::WithDepth { err, .. } => err.fmt(f),
            Error::Glob { glob: None, err } => write!(f, "{err}"),
            Error::Glob { glob: Some(g), err } => write!(f, "error parsing glob '{g}': {err}"),
            Error::Io(e) => e.fmt(f),
            Error::Partial(v) => {
                let v: Vec<_> = v.iter().map(|e| e.to_string()).collect();
                write!(f, "{}", v.join("\n"))
            }
        }
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error::Io(e)
    }
}

#[derive(Clone, Debug)]
pub enum Match<T> {
    None,
    Ignore(T),
    Whitelist(T),
}
impl<T> Match<T> {
    pub fn is_none(&self) -> bool {
        matches!(self, Match::None)
    }
    pub fn is_ignore(&self) -> bool {
        matches!(self, Match::Ignore(_))
    }
    pub fn is_whitelist(&self) -> bool {
        matches!(self, Match::Whitelist(_))
    }
    pub fn invert(self) -> Match<T> {
        match self {
            Match::None => Match::None,
            Match::Ignore(t) => Match::Whitelist(t),
            Match::Whitelist(t) => Match::Ignore(t),
        }
    }
    pub fn inner(&self) -> Option<&T> {
        match self {
            Match::None => None,
            Match::Ignore(t) | Match::Whitelist(t) => Some(t),
        }
    }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Match<U> {
        match self {
            Match::None => Match::None,
            Match::Ignore(t) => Match::Ignore(f(t)),
            Match::Whitelist(t) => Match::Whitelist(f(t)),
        }
    }
    pub fn or(self, o: Self) -> Self {
        if self.is_none() { o } else { self }
    }
}

#[derive(Clone, Debug)]
pub struct DirEntry {
    path: PathBuf,
    ty: Option<FileType>,
    depth: usize,
}
impl DirEntry {
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn into_path(self) -> PathBuf {
        self.path
    }
    pub fn path_is_symlink(&self) -> bool {
        self.ty.is_some_and(|t| t.is_symlink())
    }
    pub fn is_stdin(&self) -> bool {
        false
    }
    pub fn metadata(&self) -> Result<Metadata, Error> {
        std::fs::symlink_metadata(&self.path).map_err(|e| Error::at(e, &self.path, self.depth))
    }
    pub fn file_type(&self) -> Option<FileType> {
        self.ty
    }
    pub fn file_name(&self) -> &OsStr {
        self.path.file_name().unwrap_or_else(|| self.path.as_os_str())
    }
    pub fn depth(&self) -> usize {
        self.depth
    }
    pub fn error(&self) -> Option<&Error> {
        None
    }
    fn is_dir(&self) -> bool {
        self.ty.is_some_and(|t| t.is_dir())
    }
}

#[derive(Clone)]
struct Opts {
    hidden: bool,
    parents: bool,
    ignore: bool,
    git_ignore: bool,
    git_exclude: bool,
    require_git: bool,
    follow: bool,
    max_depth: Option<usize>,
    threads: usize,
    overrides: Override,
    filter: Option<Arc<dyn Fn(&DirEntry) -> bool + Send + Sync>>,
    sort: Option<Arc<dyn Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync>>,
}
#[derive(Clone)]
pub struct WalkBuilder {
    paths: Vec<PathBuf>,
    o: Opts,
}
macro_rules! flag {
    ($($n:ident),*) => { $(pub fn $n(&mut self, yes: bool) -> &mut Self { self.o.$n = yes; self })* };
}
impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(path: P) -> Self {
        Self {
            paths: vec![path.as_ref().to_path_buf()],
            o: Opts {
                hidden: true,
                parents: true,
                ignore: true,
                git_ignore: true,
                git_exclude: true,
                require_git: true,
                follow: false,
                max_depth: None,
                threads: 0,
                overrides: Override::empty(),
                filter: None,
                sort: None,
            },
        }
    }
    pub fn add<P: AsRef<Path>>(&mut self, path: P) -> &mut Self {
        self.paths.push(path.as_ref().to_path_buf());
        self
    }
    flag!(hidden, parents, ignore, git_ignore, git_exclude, require_git);
    pub fn git_global(&mut self, _yes: bool) -> &mut Self {
        self
    }
    pub fn follow_links(&mut self, yes: bool) -> &mut Self {
        self.o.follow = yes;
        self
    }
    pub fn same_file_system(&mut self, _yes: bool) -> &mut Self {
        self
    }
    pub fn max_depth(&mut self, d: Option<usize>) -> &mut Self {
        self.o.max_depth = d;
        self
    }
    pub fn standard_filters(&mut self, yes: bool) -> &mut Self {
        self.hidden(yes).parents(yes).ignore(yes).git_ignore(yes).git_exclude(yes)
    }
    pub fn threads(&mut self, n: usize) -> &mut Self {
        self.o.threads = n;
        self
    }
    pub fn overrides(&mut self, o: Override) -> &mut Self {
        self.o.overrides = o;
        self
    }
    pub fn filter_entry<P: Fn(&DirEntry) -> bool + Send + Sync + 'static>(&mut self, f: P) -> &mut Self {
        self.o.filter = Some(Arc::new(f));
        self
    }
    pub fn sort_by_file_path<F>(&mut self, f: F) -> &mut Self
    where
        F: Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync + 'static,
    {
        self.o.sort = Some(Arc::new(f));
        self
    }
    pub fn sort_by_file_name<F>(&mut self, f: F) -> &mut Self
    where
        F: Fn(&OsStr, &OsStr) -> std::cmp::Ordering + Send + Sync + 'static,
    {
        self.o.sort = Some(Arc::new(move |a: &Path, b: &Path| {
            f(a.file_name().unwrap_or_default(), b.file_name().unwrap_or_default())
        }));
        self
    }
    pub fn build(&self) -> Walk {
        let mut q = VecDeque::new();
        for p in self.paths.iter().rev() {
            q.push_front(Job::root(p));
        }
        Walk { o: self.o.clone(), stack: q.into_iter().rev().collect() }
    }
    pub fn build_parallel(&self) -> WalkParallel {
        WalkParallel { paths: self.paths.clone(), o: self.o.clone() }
    }
}

#[derive(Clone)]
struct Rules {
    /// matchers from the root down (last has precedence), with "inside a repo" flag
    gi: Vec<Arc<Gitignore>>,
    in_repo: bool,
    loaded: bool,
}
struct Job {
    ent: Result<DirEntry, Error>,
    rules: Arc<Rules>,
}
impl Job {
    fn root(p: &Path) -> Job {
        // A root given explicitly keeps its own type (symlinks are not followed).
        let ent = match std::fs::symlink_metadata(p) {
            Ok(m) => Ok(DirEntry { path: p.to_path_buf(), ty: Some(m.file_type()), depth: 0 }),
            Err(e) => Err(Error::at(e, p, 0)),
        };
        Job { ent, rules: Arc::new(Rules { gi: vec![], in_repo: false, loaded: false }) }
    }
}
fn load_dir(o: &Opts, dir: &Path, r: &mut Rules) {
    if dir.join(".git").exists() {
        r.in_repo = true;
        r.gi.clear();
        if o.git_exclude {
            let p = dir.join(".git/info/exclude");
            if p.exists() {
                r.gi.push(Arc::new(Gitignore::from_file(dir, &p)));
            }
        }
    }
    if o.git_ignore {
        let p = dir.join(".gitignore");
        if p.exists() {
            r.gi.push(Arc::new(Gitignore::from_file(dir, &p)));
        }
    }
    if o.ignore {
        let p = dir.join(".ignore");
        if p.exists() {
            r.gi.push(Arc::new(Gitignore::from_file(dir, &p)));
        }
    }
}
fn parent_rules(o: &Opts, p: &Path) -> Rules {
    let mut r = Rules { gi: vec![], in_repo: false, loaded: true };
    if o.parents {
        let mut anc: Vec<&Path> = p.ancestors().skip(1).filter(|p| !p.as_os_str().is_empty()).collect();
        anc.reverse();
        for a in anc {
            load_dir(o, a, &mut r);
        }
    }
    r
}
fn skip(o: &Opts, rules: &Rules, e: &DirEntry) -> bool {
    let is_dir = e.is_dir();
    let p = e.path.strip_prefix("./").unwrap_or(&e.path);
    if !o.overrides.is_empty() {
        let m = o.overrides.matched(p, is_dir);
        if m.is_whitelist() {
            return false;
        }
        if m.is_ignore() {
            return true;
        }
    }
    if rules.in_repo || !o.require_git {
        for g in rules.gi.iter().rev() {
            let m = g.matched(p, is_dir);
            if m.is_ignore() {
                return true;
            }
            if m.is_whitelist() {
                return false;
            }
        }
    }
    o.hidden && e.file_name().as_encoded_bytes().first() == Some(&b'.')
}
/// Entries below a directory, already filtered, in directory order.
fn expand(o: &Opts, job: &Job) -> Vec<Job> {
    let Ok(d) = &job.ent else { return vec![] };
    let mut is_dir = d.is_dir();
    if !is_dir && o.follow && d.path_is_symlink() {
        is_dir = d.path.is_dir();
    }
    if !is_dir || o.max_depth.is_some_and(|m| d.depth >= m) {
        return vec![];
    }
    let mut rules = if job.rules.loaded { (*job.rules).clone() } else { parent_rules(o, &d.path) };
    load_dir(o, &d.path, &mut rules);
    let rules = Arc::new(rules);
    let depth = d.depth + 1;
    let mut out = vec![];
    match std::fs::read_dir(&d.path) {
        Err(e) => out.push(Job { ent: Err(Error::at(e, &d.path, d.depth)), rules }),
        Ok(it) => {
            for x in it {
                match x {
                    Err(e) => out.push(Job { ent: Err(Error::at(e, &d.path, depth)), rules: rules.clone() }),
                    Ok(x) => match x.file_type() {
                        Err(e) => out.push(Job { ent: Err(Error::at(e, &x.path(), depth)), rules: rules.clone() }),
                        Ok(t) => {
                            let e = DirEntry { path: x.path(), ty: Some(t), depth };
                            if skip(o, &rules, &e) || o.filter.as_ref().is_some_and(|f| !f(&e)) {
                                continue;
                            }
                            out.push(Job { ent: Ok(e), rules: rules.clone() });
                        }
                    },
                }
            }
        }
    }
    if let Some(s) = &o.sort {
        out.sort_by(|a, b| match (&a.ent, &b.ent) {
            (Ok(a), Ok(b)) => s(a.path(), b.path()),
            (Err(_), Ok(_)) => std::cmp::Ordering::Less,
            (Ok(_), Err(_)) => std::cmp::Ordering::Greater,
            _ => std::cmp::Ordering::Equal,
        });
    }
    out
}

pub struct Walk {
    o: Opts,
    stack: Vec<Job>,
}
impl Walk {
    pub fn new<P: AsRef<Path>>(path: P) -> Walk {
        WalkBuilder::new(path).build()
    }
}
impl Iterator for Walk {
    type Item = Result<DirEntry, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let j = self.stack.pop()?;
        let mut ch = expand(&self.o, &j);
        ch.reverse();
        self.stack.extend(ch);
        Some(j.ent)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum WalkState {
    Continue,
    Skip,
    Quit,
}
impl WalkState {
    pub fn is_continue(&self) -> bool {
        *self == WalkState::Continue
    }
    pub fn is_quit(&self) -> bool {
        *self == WalkState::Quit
    }
}
pub trait ParallelVisitorBuilder<'s> {
    fn build(&mut self) -> Box<dyn ParallelVisitor + 's>;
}
pub trait ParallelVisitor: Send {
    fn visit(&mut self, entry: Result<DirEntry, Error>) -> WalkState;
}
impl<'s, P: ParallelVisitorBuilder<'s>> ParallelVisitorBuilder<'s> for &mut P {
    fn build(&mut self) -> Box<dyn ParallelVisitor + 's> {
        (**self).build()
    }
}
pub struct WalkParallel {
    paths: Vec<PathBuf>,
    o: Opts,
}
type FnVisitor<'s> = Box<dyn FnMut(Result<DirEntry, Error>) -> WalkState + Send + 's>;
struct FnBuilder<F>(F);
impl<'s, F: FnMut() -> FnVisitor<'s>> ParallelVisitorBuilder<'s> for FnBuilder<F> {
    fn build(&mut self) -> Box<dyn ParallelVisitor + 's> {
        struct V<'s>(FnVisitor<'s>);
        impl ParallelVisitor for V<'_> {
            fn visit(&mut self, e: Result<DirEntry, Error>) -> WalkState {
                (self.0)(e)
            }
        }
        Box::new(V((self.0)()))
    }
}
struct Shared {
    q: Mutex<(Vec<Job>, usize, bool)>, // work, busy, quit
    cv: Condvar,
}
impl WalkParallel {
    pub fn run<'s, F: FnMut() -> FnVisitor<'s>>(self, f: F) {
        self.visit(&mut FnBuilder(f))
    }
    pub fn visit(self, builder: &mut dyn ParallelVisitorBuilder<'_>) {
        let n = if self.o.threads == 0 {
            std::thread::available_parallelism().map_or(1, |n| n.get()).min(12)
        } else {
            self.o.threads
        };
        let o = &self.o;
        let mut roots: Vec<Job> = self.paths.iter().map(|p| Job::root(p)).collect();
        roots.reverse();
        let sh = Shared { q: Mutex::new((roots, 0, false)), cv: Condvar::new() };
        let visitors: Vec<_> = (0..n).map(|_| builder.build()).collect();
        std::thread::scope(|s| {
            for mut v in visitors {
                let sh = &sh;
                s.spawn(move || {
                    loop {
                        let job = {
                            let mut g = sh.q.lock().unwrap();
                            loop {
                                if g.2 {
                                    return;
                                }
                                if let Some(j) = g.0.pop() {
                                    g.1 += 1;
                                    break j;
                                }
                                if g.1 == 0 {
                                    drop(g);
                                    sh.cv.notify_all();
                                    return;
                                }
                                g = sh.cv.wait(g).unwrap();
                            }
                        };
                        let (ent, rules) = (job.ent, job.rules);
                        let keep = ent.as_ref().ok().cloned();
                        let st = v.visit(ent);
                        let kids = match (st, keep) {
                            (WalkState::Continue, Some(e)) => expand(o, &Job { ent: Ok(e), rules }),
                            _ => vec![],
                        };
                        let mut g = sh.q.lock().unwrap();
                        g.1 -= 1;
                        if st == WalkState::Quit {
                            g.2 = true;
                        }
                        g.0.extend(kids);
                        drop(g);
                        sh.cv.notify_all();
                    }
                });
            }
        });
    }
}
