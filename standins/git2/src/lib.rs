//! Offline stand-in for `git2`: repository discovery and working-tree status.
//! The index is recorded as `hash<TAB>path` lines in `.git/standin_index`, the
//! committed tree likewise in `.git/standin_head` (the same as the index when it
//! isn't there). A `.git` that is a file says where the repository of a linked
//! working tree is (`gitdir: PATH`).
use std::collections::BTreeMap;
use std::fmt;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[non_exhaustive]
pub enum ErrorCode {
    GenericError,
    NotFound,
    Exists,
    BareRepo,
    UnbornBranch,
    Invalid,
    Owner,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[non_exhaustive]
pub enum ErrorClass {
    None,
    Os,
    Repository,
}
#[derive(Debug, PartialEq, Eq)]
pub struct Error {
    msg: String,
}
impl Error {
    pub fn code(&self) -> ErrorCode {
        if self.msg.starts_with("could not find repository") {
            ErrorCode::NotFound
        } else {
            ErrorCode::GenericError
        }
    }
    pub fn class(&self) -> ErrorClass {
        match self.code() {
            ErrorCode::NotFound => ErrorClass::Repository,
            _ => ErrorClass::Os,
        }
    }
    pub fn message(&self) -> &str {
        &self.msg
    }
    pub fn from_str(s: &str) -> Self {
        Self { msg: s.to_string() }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Self { msg: e.to_string() }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Status(u32);
impl Status {
    pub const CURRENT: Status = Status(0);
    pub const INDEX_NEW: Status = Status(1);
    pub const INDEX_MODIFIED: Status = Status(1 << 1);
    pub const INDEX_DELETED: Status = Status(1 << 2);
    pub const INDEX_RENAMED: Status = Status(1 << 3);
    pub const INDEX_TYPECHANGE: Status = Status(1 << 4);
    pub const WT_NEW: Status = Status(1 << 7);
    pub const WT_MODIFIED: Status = Status(1 << 8);
    pub const WT_DELETED: Status = Status(1 << 9);
    pub const WT_TYPECHANGE: Status = Status(1 << 10);
    pub const WT_RENAMED: Status = Status(1 << 11);
    pub const IGNORED: Status = Status(1 << 14);
    pub const CONFLICTED: Status = Status(1 << 15);
    pub const fn empty() -> Status {
        Status(0)
    }
    pub const fn all() -> Status {
        Status(0xcf9f)
    }
    pub const fn union(self, o: Status) -> Status {
        Status(self.0 | o.0)
    }
    pub const fn intersects(&self, o: Status) -> bool {
        self.0 & o.0 != 0
    }
    pub fn insert(&mut self, o: Status) {
        self.0 |= o.0
    }
    pub fn remove(&mut self, o: Status) {
        self.0 &= !o.0
    }
    pub fn bits(&self) -> u32 {
        self.0
    }
    pub fn is_empty(&self) -> bool {
        self.0 == 0
    }
    pub fn contains(&self, o: Status) -> bool {
        self.0 & o.0 == o.0
    }
    pub fn is_wt_new(&self) -> bool {
        self.contains(Status::WT_NEW)
    }
    pub fn is_wt_modified(&self) -> bool {
        self.contains(Status::WT_MODIFIED)
    }
    pub fn is_wt_deleted(&self) -> bool {
        self.contains(Status::WT_DELETED)
    }
    pub fn is_wt_renamed(&self) -> bool {
        self.contains(Status::WT_RENAMED)
    }
    pub fn is_wt_typechange(&self) -> bool {
        self.contains(Status::WT_TYPECHANGE)
    }
    pub fn is_index_new(&self) -> bool {
        self.contains(Status::INDEX_NEW)
    }
    pub fn is_index_modified(&self) -> bool {
        self.contains(Status::INDEX_MODIFIED)
    }
    pub fn is_index_deleted(&self) -> bool {
        self.contains(Status::INDEX_DELETED)
    }
    pub fn is_index_renamed(&self) -> bool {
        self.contains(Status::INDEX_RENAMED)
    }
    pub fn is_index_typechange(&self) -> bool {
        self.contains(Status::INDEX_TYPECHANGE)
    }
    pub fn is_conflicted(&self) -> bool {
        self.contains(Status::CONFLICTED)
    }
    pub fn is_ignored(&self) -> bool {
        self.contains(Status::IGNORED)
    }
}

impl std::ops::BitOr for Status {
    type Output = Status;
    fn bitor(self, o: Status) -> Status {
        Status(self.0 | o.0)
    }
}
impl std::ops::BitOrAssign for Status {
    fn bitor_assign(&mut self, o: Status) {
        self.0 |= o.0
    }
}
impl std::ops::BitAnd for Status {
    type Output = Status;
    fn bitand(self, o: Status) -> Status {
        Status(self.0 & o.0)
    }
}
impl std::ops::Sub for Status {
    type Output = Status;
    fn sub(self, o: Status) -> Status {
        Status(self.0 & !o.0)
    }
}
impl std::ops::Not for Status {
    type Output = Status;
    fn not(self) -> Status {
        Status(!self.0 & Status::all().0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum StatusShow {
    Index,
    Workdir,
    IndexAndWorkdir,
}
#[derive(Clone)]
pub struct StatusOptions {
    show: StatusShow,
    ignored: bool,
    untracked: bool,
    recurse: bool,
    unmodified: bool,
    pathspecs: Vec<String>,
}
impl Default for StatusOptions {
    fn default() -> Self {
        Self::new()
    }
}
impl StatusOptions {
    pub fn new() -> Self {
        // no flags at all, as in git2
        Self {
            show: StatusShow::IndexAndWorkdir,
            ignored: false,
            untracked: false,
            recurse: false,
            unmodified: false,
            pathspecs: vec![],
        }
    }
    pub fn show(&mut self, s: StatusShow) -> &mut Self {
        self.show = s;
        self
    }
    pub fn include_ignored(&mut self, b: bool) -> &mut Self {
        self.ignored = b;
        self
    }
    pub fn include_untracked(&mut self, b: bool) -> &mut Self {
        self.untracked = b;
        self
    }
    pub fn recurse_untracked_dirs(&mut self, b: bool) -> &mut Self {
        self.recurse = b;
        self
    }
    pub fn include_unmodified(&mut self, b: bool) -> &mut Self {
        self.unmodified = b;
        self
    }
    pub fn exclude_submodules(&mut self, _b: bool) -> &mut Self {
        self
    }
    pub fn pathspec<T: AsRef<str>>(&mut self, p: T) -> &mut Self {
        self.pathspecs.push(p.as_ref().to_string());
        self
    }
}
pub struct StatusEntry {
    path: String,
    status: Status,
}
impl StatusEntry {
    pub fn path(&self) -> Option<&str> {
        Some(&self.path)
    }
    pub fn status(&self) -> Status {
        self.status
    }
}
pub struct Statuses(Vec<StatusEntry>);
impl Statuses {
    pub fn iter(&self) -> std::slice::Iter<'_, StatusEntry> {
        self.0.iter()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl<'a> IntoIterator for &'a Statuses {
    type Item = &'a StatusEntry;
    type IntoIter = std::slice::Iter<'a, StatusEntry>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}

pub struct Repository {
    gitdir: PathBuf,
    workdir: PathBuf,
}
pub struct Index {
    workdir: PathBuf,
    gitdir: PathBuf,
    add: Vec<PathBuf>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Oid;
pub struct Tree;
pub struct Commit;
pub struct Signature;
impl Signature {
    pub fn now(_n: &str, _e: &str) -> Result<Signature, Error> {
        Ok(Signature)
    }
}
impl Index {
    pub fn add_path(&mut self, p: &Path) -> Result<(), Error> {
        self.add.push(p.to_path_buf());
        Ok(())
    }
    pub fn write(&mut self) -> Result<(), Error> {
        let mut m = read_index(&self.gitdir.join("standin_index"))?.unwrap_or_default();
        for p in &self.add {
            let b = std::fs::read(self.workdir.join(p))?;
            m.insert(p.to_string_lossy().into_owned(), hash(&b));
        }
        let s: String = m.iter().map(|(k, v)| format!("{v:016x}\t{k}\n")).collect();
        std::fs::write(self.gitdir.join("standin_index"), s)?;
        Ok(())
    }
    pub fn write_tree(&mut self) -> Result<Oid, Error> {
        Ok(Oid)
    }
}
pub fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
type Entries = BTreeMap<String, u64>;
fn read_index(file: &Path) -> Result<Option<Entries>, Error> {
    match std::fs::read_to_string(file) {
        Ok(s) => Ok(Some(
            s.lines()
                .filter_map(|l| l.split_once('\t'))
                .filter_map(|(h, p)| Some((p.to_string(), u64::from_str_radix(h, 16).ok()?)))
                .collect(),
        )),
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
        Err(e) => Err(e.into()),
    }
}
/// The repository whose working tree is `dir`, or which is `dir`.
fn at(dir: &Path) -> Result<Option<Repository>, Error> {
    let git = dir.join(".git");
    if git.is_dir() {
        return Ok(Some(Repository { gitdir: dir.join(".git/"), workdir: dir.to_path_buf() }));
    }
    if git.is_file() {
        let s = std::fs::read_to_string(&git)?;
        let Some(p) = s.strip_prefix("gitdir: ") else {
            return Err(Error::from_str("invalid gitfile format"));
        };
        let gitdir = dir.join(p.trim_end()).join("");
        if !gitdir.is_dir() {
            return Err(Error::from_str("path to gitdir does not exist"));
        }
        return Ok(Some(Repository { gitdir, workdir: dir.to_path_buf() }));
    }
    if dir.ends_with(".git")
        && let Some(w) = dir.parent()
    {
        return Ok(Some(Repository { gitdir: dir.join(""), workdir: w.to_path_buf() }));
    }
    Ok(None)
}
impl Repository {
    pub fn init<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        let w = p.as_ref().to_path_buf();
        std::fs::create_dir_all(w.join(".git"))?;
        Ok(Repository { gitdir: w.join(".git/"), workdir: w })
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        at(p.as_ref())?.ok_or_else(|| Error::from_str("could not find repository"))
    }
    pub fn discover<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        let p = p.as_ref();
        let abs = if p.is_absolute() { p.to_path_buf() } else { std::env::current_dir()?.join(p) };
        // libgit2 resolves the starting path and fails when it does not exist
        let start = std::fs::canonicalize(&abs)?;
        for d in start.ancestors() {
            if let Some(r) = at(d)? {
                return Ok(r);
            }
        }
        Err(Error::from_str("could not find repository"))
    }
    pub fn discover_path<P: AsRef<Path>, I: IntoIterator<Item = O>, O: AsRef<std::ffi::OsStr>>(p: P, _ceiling: I) -> Result<PathBuf, Error> {
        Ok(Repository::discover(p)?.gitdir)
    }
    /// The index and the committed tree
    fn trees(&self) -> Result<(Entries, Entries), Error> {
        let index = read_index(&self.gitdir.join("standin_index"))?.unwrap_or_default();
        let head = read_index(&self.gitdir.join("standin_head"))?.unwrap_or_else(|| index.clone());
        Ok((index, head))
    }
    pub fn is_empty(&self) -> Result<bool, Error> {
        Ok(self.trees()?.1.is_empty())
    }
    pub fn is_worktree(&self) -> bool {
        !self.gitdir.ends_with(".git")
    }
    pub fn path(&self) -> &Path {
        &self.gitdir
    }
    pub fn workdir(&self) -> Option<&Path> {
        Some(&self.workdir)
    }
    pub fn is_bare(&self) -> bool {
        false
    }
    pub fn index(&self) -> Result<Index, Error> {
        Ok(Index { workdir: self.workdir.clone(), gitdir: self.gitdir.clone(), add: vec![] })
    }
    pub fn find_tree(&self, _o: Oid) -> Result<Tree, Error> {
        Ok(Tree)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn commit(
        &self,
        _r: Option<&str>,
        _a: &Signature,
        _c: &Signature,
        _m: &str,
        _t: &Tree,
        _p: &[&Commit],
    ) -> Result<Oid, Error> {
        Ok(Oid)
    }
    pub fn status_file(&self, path: &Path) -> Result<Status, Error> {
        let k = path.to_string_lossy().into_owned();
        let (idx, head) = self.trees()?;
        let now = std::fs::read(self.workdir.join(path));
        let staged = staged(idx.get(&k), head.get(&k));
        Ok(staged
            | match (idx.get(&k), now) {
                (Some(h), Ok(b)) if *h == hash(&b) => Status::CURRENT,
                (Some(_), Ok(_)) => Status::WT_MODIFIED,
                (Some(_), Err(_)) => Status::WT_DELETED,
                (None, Ok(_)) => Status::WT_NEW,
                (None, Err(_)) if staged != Status::CURRENT => Status::CURRENT,
                (None, Err(e)) => return Err(e.into()),
            })
    }
    pub fn status_should_ignore(&self, path: &Path) -> Result<bool, Error> {
        Ok(self.ignores().matched(path, false).is_ignore())
    }
    pub fn is_path_ignored<P: AsRef<Path>>(&self, path: P) -> Result<bool, Error> {
        self.status_should_ignore(path.as_ref())
    }
    fn ignores(&self) -> ignore::gitignore::Gitignore {
        let mut gi = ignore::gitignore::GitignoreBuilder::new(&self.workdir);
        let gip = self.workdir.join(".gitignore");
        if gip.exists() {
            let _ = gi.add(&gip);
        }
        gi.build().unwrap_or_else(|_| ignore::gitignore::Gitignore::empty())
    }
    pub fn statuses(&self, o: Option<&mut StatusOptions>) -> Result<Statuses, Error> {
        let o = o.map(|o| o.clone()).unwrap_or_else(|| {
            let mut o = StatusOptions::new();
            o.include_ignored(true).include_untracked(true).recurse_untracked_dirs(true);
            o
        });
        let (idx, head) = self.trees()?;
        let mut out: BTreeMap<String, Status> = BTreeMap::new();
        if o.show != StatusShow::Index {
            self.scan(&self.workdir.clone(), &idx, &self.ignores(), &o, &mut out)?;
            for k in idx.keys() {
                if std::fs::symlink_metadata(self.workdir.join(k)).is_err() {
                    out.insert(k.clone(), Status::WT_DELETED);
                }
            }
        }
        if o.show != StatusShow::Workdir {
            for k in idx.keys().chain(head.keys()) {
                let s = staged(idx.get(k), head.get(k));
                if s != Status::CURRENT {
                    *out.entry(k.clone()).or_insert(s) |= s;
                }
            }
        }
        if o.unmodified {
            for k in idx.keys() {
                out.entry(k.clone()).or_insert(Status::CURRENT);
            }
        }
        if !o.pathspecs.is_empty() {
            out.retain(|k, _| o.pathspecs.iter().any(|p| k == p || k.starts_with(&format!("{}/", p.trim_end_matches('/')))));
        }
        Ok(Statuses(out.into_iter().map(|(path, status)| StatusEntry { path, status }).collect()))
    }
    fn scan(
        &self,
        dir: &Path,
        idx: &BTreeMap<String, u64>,
        gi: &ignore::gitignore::Gitignore,
        o: &StatusOptions,
        out: &mut BTreeMap<String, Status>,
    ) -> Result<(), Error> {
        // libgit2's iterators sort what they list.
        let mut es = std::fs::read_dir(dir)?.collect::<std::io::Result<Vec<_>>>()?;
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let p = e.path();
            let rel = p.strip_prefix(&self.workdir).unwrap_or(&p).to_string_lossy().into_owned();
            if rel == ".git" {
                continue;
            }
            let is_dir = e.file_type()?.is_dir();
            let ignored = gi.matched(Path::new(&rel), is_dir).is_ignore();
            if is_dir {
                let tracked = idx.keys().any(|k| k.starts_with(&format!("{rel}/")));
                if ignored && !tracked {
                    if o.ignored {
                        out.insert(format!("{rel}/"), Status::IGNORED);
                    }
                } else if tracked || o.recurse {
                    self.scan(&p, idx, gi, o, out)?;
                } else if o.untracked && std::fs::read_dir(&p)?.next().is_some() {
                    out.insert(format!("{rel}/"), Status::WT_NEW);
                }
                continue;
            }
            match idx.get(&rel) {
                Some(h) => {
                    let b = std::fs::read(&p)?;
                    if hash(&b) != *h {
                        out.insert(rel, Status::WT_MODIFIED);
                    }
                }
                None if ignored => {
                    if o.ignored {
                        out.insert(rel, Status::IGNORED);
                    }
                }
                None => {
                    if o.untracked {
                        out.insert(rel, Status::WT_NEW);
                    }
                }
            }
        }
        Ok(())
    }
}

fn staged(index: Option<&u64>, head: Option<&u64>) -> Status {
    match (index, head) {
        (Some(i), Some(h)) if i == h => Status::CURRENT,
        (Some(_), Some(_)) => Status::INDEX_MODIFIED,
        (Some(_), None) => Status::INDEX_NEW,
        (None, Some(_)) => Status::INDEX_DELETED,
        (None, None) => Status::CURRENT,
    }
}
