//! Stand-in: there is no Steam here.
use std::path::PathBuf;
pub struct SteamApp {
    pub path: PathBuf,
}
pub struct SteamDir {
    pub path: PathBuf,
}
impl SteamDir {
    pub fn locate() -> Option<SteamDir> {
        None
    }
    pub fn app(&mut self, _: &u32) -> Option<&SteamApp> {
        None
    }
}
