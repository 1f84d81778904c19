//! Stands in for glob: a pattern with one `*` in the file name.

use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct PatternError;
impl std::fmt::Display for PatternError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pattern")
    }
}
impl std::error::Error for PatternError {}
pub type GlobError = std::io::Error;

pub fn glob(pattern: &str) -> Result<std::vec::IntoIter<Result<PathBuf, GlobError>>, PatternError> {
    let p = Path::new(pattern);
    let dir = p.parent().filter(|d| !d.as_os_str().is_empty()).unwrap_or(Path::new("."));
    let name = p.file_name().and_then(|n| n.to_str()).unwrap_or("");
    let (a, b) = name.split_once('*').unwrap_or((name, ""));
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    v.retain(|f| {
        f.file_name().and_then(|n| n.to_str()).is_some_and(|n| {
            if name.contains('*') { n.len() >= a.len() + b.len() && n.starts_with(a) && n.ends_with(b) } else { n == name }
        })
    });
    v.sort();
    Ok(v.into_iter().map(Ok).collect::<Vec<_>>().into_iter())
}
