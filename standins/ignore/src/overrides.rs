use crate::gitignore::{self, Gitignore, GitignoreBuilder};
use crate::{Error, Match};
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Glob(#[allow(dead_code)] Option<String>);
#[derive(Clone, Debug)]
pub struct Override(Gitignore);
impl Override {
    pub fn empty() -> Override {
        Override(Gitignore::empty())
    }
    pub fn path(&self) -> &Path {
        self.0.path()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn num_ignores(&self) -> u64 {
        self.0.num_whitelists()
    }
    pub fn num_whitelists(&self) -> u64 {
        self.0.num_ignores()
    }
    pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<Glob> {
        if self.is_empty() {
            return Match::None;
        }
        let m = self.0.matched(path, is_dir).invert();
        if m.is_none() && self.num_whitelists() > 0 && !is_dir {
            return Match::Ignore(Glob(None));
        }
        m.map(|g: &gitignore::Glob| Glob(Some(g.original().to_string())))
    }
}
pub struct OverrideBuilder {
    b: GitignoreBuilder,
}
impl OverrideBuilder {
    pub fn new<P: AsRef<Path>>(path: P) -> OverrideBuilder {
        OverrideBuilder { b: GitignoreBuilder::new(path) }
    }
    pub fn build(&self) -> Result<Override, Error> {
        Ok(Override(self.b.build()?))
    }
    pub fn add(&mut self, glob: &str) -> Result<&mut Self, Error> {
        self.b.add_line(None, glob)?;
        Ok(self)
    }
    pub fn case_insensitive(&mut self, yes: bool) -> Result<&mut Self, Error> {
        self.b.case_insensitive(yes)?;
        Ok(self)
    }
}
