use crate::{Error, Match};
use globset::{Candidate, GlobBuilder, GlobSet, GlobSetBuilder};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct Glob {
    original: String,
    actual: String,
    is_whitelist: bool,
    is_only_dir: bool,
}
impl Glob {
    pub fn original(&self) -> &str {
        &self.original
    }
    pub fn actual(&self) -> &str {
        &self.actual
    }
    pub fn is_whitelist(&self) -> bool {
        self.is_whitelist
    }
    pub fn is_only_dir(&self) -> bool {
        self.is_only_dir
    }
}
#[derive(Clone, Debug)]
pub struct Gitignore {
    set: GlobSet,
    root: PathBuf,
    globs: Vec<Glob>,
    num_ignores: u64,
    num_whitelists: u64,
}
impl Gitignore {
    pub fn empty() -> Gitignore {
        Gitignore { set: GlobSet::empty(), root: PathBuf::new(), globs: vec![], num_ignores: 0, num_whitelists: 0 }
    }
    pub(crate) fn from_file(root: &Path, p: &Path) -> Gitignore {
        let mut b = GitignoreBuilder::new(root);
        let _ = b.add(p);
        b.build().unwrap_or_else(|_| Gitignore::empty())
    }
    pub fn new<P: AsRef<Path>>(p: P) -> (Gitignore, Option<Error>) {
        let p = p.as_ref();
        (Self::from_file(p.parent().unwrap_or(Path::new("/")), p), None)
    }
    pub fn path(&self) -> &Path {
        &self.root
    }
    pub fn is_empty(&self) -> bool {
        self.set.is_empty()
    }
    pub fn len(&self) -> usize {
        self.set.len()
    }
    pub fn num_ignores(&self) -> u64 {
        self.num_ignores
    }
    pub fn num_whitelists(&self) -> u64 {
        self.num_whitelists
    }
    fn strip<'a>(&self, path: &'a Path) -> &'a Path {
        let mut path = path.strip_prefix("./").unwrap_or(path);
        if self.root != Path::new(".") {
            if let Ok(p) = path.strip_prefix(&self.root) {
                path = p;
                path = path.strip_prefix("/").unwrap_or(path);
            }
        }
        path
    }
    pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<&Glob> {
        if self.is_empty() {
            return Match::None;
        }
        let c = Candidate::new(self.strip(path.as_ref()));
        for i in self.set.matches_candidate(&c).into_iter().rev() {
            let g = &self.globs[i];
            if !g.is_only_dir || is_dir {
                return if g.is_whitelist { Match::Whitelist(g) } else { Match::Ignore(g) };
            }
        }
        Match::None
    }
    pub fn matched_path_or_any_parents<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<&Glob> {
        let mut p = self.strip(path.as_ref()).to_path_buf();
        let m = self.matched(&p, is_dir);
        if !m.is_none() {
            return m;
        }
        while let Some(q) = p.parent().map(|q| q.to_path_buf()) {
            let m = self.matched(&q, true);
            if !m.is_none() {
                return m;
            }
            p = q;
        }
        Match::None
    }
}
pub struct GitignoreBuilder {
    builder: GlobSetBuilder,
    root: PathBuf,
    globs: Vec<Glob>,
    case_insensitive: bool,
}
impl GitignoreBuilder {
    pub fn new<P: AsRef<Path>>(root: P) -> GitignoreBuilder {
        let root = root.as_ref();
        GitignoreBuilder {
            builder: GlobSetBuilder::new(),
            root: root.strip_prefix("./").unwrap_or(root).to_path_buf(),
            globs: vec![],
            case_insensitive: false,
        }
    }
    pub fn case_insensitive(&mut self, yes: bool) -> Result<&mut Self, Error> {
        self.case_insensitive = yes;
        Ok(self)
    }
    pub fn build(&self) -> Result<Gitignore, Error> {
        let nig = self.globs.iter().filter(|g| !g.is_whitelist).count() as u64;
        let nw = self.globs.iter().filter(|g| g.is_whitelist).count() as u64;
        let set = self
            .builder
            .build()
            .map_err(|e| Error::Glob { glob: None, err: e.to_string() })?;
        Ok(Gitignore { set, root: self.root.clone(), globs: self.globs.clone(), num_ignores: nig, num_whitelists: nw })
    }
    pub fn add<P: AsRef<Path>>(&mut self, path: P) -> Option<Error> {
        match std::fs::read_to_string(path.as_ref()) {
            Err(e) => Some(Error::Io(e)),
            Ok(s) => {
                let mut errs = vec![];
                for l in s.lines() {
                    if let Err(e) = self.add_line(Some(path.as_ref().to_path_buf()), l) {
                        errs.push(e);
                    }
                }
                if errs.is_empty() { None } else { Some(Error::Partial(errs)) }
            }
        }
    }
    pub fn add_line(&mut self, _from: Option<PathBuf>, mut line: &str) -> Result<&mut Self, Error> {
        if line.starts_with('#') {
            return Ok(self);
        }
        if !line.ends_with("\\ ") {
            line = line.trim_end();
        }
        if line.is_empty() {
            return Ok(self);
        }
        let mut g = Glob { original: line.to_string(), actual: String::new(), is_whitelist: false, is_only_dir: false };
        let mut is_absolute = false;
        if line.starts_with("\\!") || line.starts_with("\\#") {
            line = &line[1..];
            is_absolute = line.starts_with('/');
        } else {
            if let Some(r) = line.strip_prefix('!') {
                g.is_whitelist = true;
                line = r;
            }
            if let Some(r) = line.strip_prefix('/') {
                line = r;
                is_absolute = true;
            }
        }
        if line.as_bytes().last() == Some(&b'/') {
            g.is_only_dir = true;
            line = &line[..line.len() - 1];
            if line.as_bytes().last() == Some(&b'\\') {
                return Err(Error::Glob { glob: Some(g.original.clone()), err: "dangling '\\'".into() });
            }
        }
        g.actual = line.to_string();
        if !is_absolute && !line.chars().any(|c| c == '/') && !g.actual.starts_with("**/") && g.actual != "**" {
            g.actual = format!("**/{}", g.actual);
        }
        if g.actual.ends_with("/**") {
            g.actual = format!("{}/*", g.actual);
        }
        let p = GlobBuilder::new(&g.actual)
            .literal_separator(true)
            .case_insensitive(self.case_insensitive)
            .backslash_escape(true)
            .build()
            .map_err(|e| Error::Glob { glob: Some(g.original.clone()), err: e.kind().to_string() })?;
        self.builder.add(p);
        self.globs.push(g);
        Ok(self)
    }
}
