//! No user directories in a simulation.
use std::path::Path;
pub struct ProjectDirs;
impl ProjectDirs {
    pub fn from(_: &str, _: &str, _: &str) -> Option<ProjectDirs> {
        None
    }
    pub fn data_local_dir(&self) -> &Path {
        unreachable!()
    }
    pub fn config_dir(&self) -> &Path {
        unreachable!()
    }
    pub fn data_dir(&self) -> &Path {
        unreachable!()
    }
}
