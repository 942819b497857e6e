//! Stand-in: the base folder is the one chosen for the current thread.
use std::cell::RefCell;
use std::path::{Path, PathBuf};
thread_local!(static BASE: RefCell<Option<PathBuf>> = const { RefCell::new(None) });
pub fn set_base(p: Option<PathBuf>) {
    BASE.with(|b| *b.borrow_mut() = p)
}
pub struct BaseDirs(PathBuf);
impl BaseDirs {
    pub fn new() -> Option<BaseDirs> {
        BASE.with(|b| b.borrow().clone()).map(BaseDirs)
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
    pub fn data_dir(&self) -> &Path {
        &self.0
    }
    pub fn home_dir(&self) -> &Path {
        &self.0
    }
    pub fn config_dir(&self) -> &Path {
        &self.0
    }
    pub fn cache_dir(&self) -> &Path {
        &self.0
    }
}
