//! A simulated RocksDB: same interface as far as /repo uses it, over a simulated disk.
//!
//! What it keeps of the real thing: a write (one call) is one log record, atomic and ordered; a crash keeps
//! every record that was synced and some prefix of the others; iterators see the snapshot of their creation,
//! in key order, run past the prefix they were seeked to, and deliver an I/O error as their last item.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    fn io(m: &str) -> Error {
        Error { message: format!("IO error: {m}") }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Default, Clone, Debug)]
pub struct Options {
    create: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v;
    }
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_compaction_readahead_size(&mut self, _: usize) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn enable_statistics(&mut self) {}
    pub fn set_keep_log_file_num(&mut self, _: usize) {}
}
#[derive(Clone, Copy, Debug)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Lz4,
    Zstd,
}

#[derive(Default, Clone)]
pub struct WriteBatch {
    ops: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops.push((k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push((k.as_ref().to_vec(), None));
    }
    pub fn delete_range<K: AsRef<[u8]>>(&mut self, _: K, _: K) {
        unimplemented!("not simulated")
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
}

/// What the next I/O on the disk meets.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IoFault {
    /// Nothing happens on disk and the call fails.
    Fail,
    /// The log record is written and then the call fails.
    FailAfter,
    /// The process dies before the record is written.
    CrashBefore,
    /// The process dies once the record is written.
    CrashAfter,
}

/// Payload of the panic that stands for the death of the process.
pub struct Crashed;

type Record = Vec<(Vec<u8>, Option<Vec<u8>>)>;

#[derive(Default)]
struct DiskSt {
    log: Vec<Record>,
    /// Records before this one survive a power loss.
    synced: usize,
    writes: u64,
    reads: u64,
    write_fault: Option<(u64, IoFault)>,
    read_fault: Option<u64>,
    iter_fault: Option<u64>,
    opened: bool,
    full: bool,
    fired: Vec<&'static str>,
}

/// The medium: outlives the databases opened on it.
#[derive(Clone, Default)]
pub struct Disk(Arc<Mutex<DiskSt>>);

impl Disk {
    fn g(&self) -> MutexGuard<'_, DiskSt> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn new() -> Disk {
        Disk::default()
    }
    /// The write call that is `after` calls away meets this fault.
    pub fn fault_write(&self, after: u64, f: IoFault) {
        let mut g = self.g();
        g.write_fault = Some((g.writes + after, f));
    }
    /// The read call that is `after` calls away fails.
    pub fn fault_read(&self, after: u64) {
        let mut g = self.g();
        g.read_fault = Some(g.reads + after);
    }
    /// The next iterators fail at their item number `at`.
    pub fn fault_iter(&self, at: Option<u64>) {
        self.g().iter_fault = at;
    }
    pub fn set_full(&self, v: bool) {
        self.g().full = v;
    }
    pub fn clear_faults(&self) {
        let mut g = self.g();
        g.write_fault = None;
        g.read_fault = None;
        g.iter_fault = None;
        g.full = false;
    }
    /// Kinds of the faults that fired since the last call.
    pub fn take_fired(&self) -> Vec<&'static str> {
        std::mem::take(&mut self.g().fired)
    }
    pub fn writes(&self) -> u64 {
        self.g().writes
    }
    /// Process death: what reached the log stays. Power loss: `lost` of the unsynced records go.
    pub fn crash(&self, lost: usize) {
        let mut g = self.g();
        let keep = g.log.len().saturating_sub(lost).max(g.synced);
        if std::env::var("SIM_DISK").is_ok() { eprintln!("DISK crash {} of {}", g.log.len()-keep, g.log.len()); }
        g.log.truncate(keep);
        g.opened = false;
    }
    pub fn records(&self) -> usize {
        self.g().log.len()
    }
    /// Nothing is left but the first `n` records.
    pub fn cut(&self, n: usize) {
        let mut g = self.g();
        g.log.truncate(n);
        g.synced = g.synced.min(n);
    }
    pub fn unsynced(&self) -> usize {
        let g = self.g();
        g.log.len() - g.synced
    }
    pub fn sync(&self) {
        let mut g = self.g();
        g.synced = g.log.len();
    }
    /// Contents after the first `n` records.
    pub fn contents(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        replay(&self.g().log)
    }
    pub fn open(&self) -> Result<DB, Error> {
        let mut g = self.g();
        if g.opened {
            return Err(Error::io("lock hold by current process"));
        }
        g.opened = true;
        let mem = replay(&g.log);
        drop(g);
        Ok(DB { disk: self.clone(), mem: Mutex::new(mem) })
    }
}

fn replay(log: &[Record]) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut m = BTreeMap::new();
    for r in log {
        apply(&mut m, r);
    }
    m
}
fn apply(m: &mut BTreeMap<Vec<u8>, Vec<u8>>, r: &Record) {
    for (k, v) in r {
        match v {
            Some(v) => {
                m.insert(k.clone(), v.clone());
            }
            None => {
                m.remove(k);
            }
        }
    }
}

pub struct DB {
    disk: Disk,
    mem: Mutex<BTreeMap<Vec<u8>, Vec<u8>>>,
}

pub type DBVector = Vec<u8>;

#[derive(Default)]
pub struct WriteOptions {
    sync: bool,
    disable_wal: bool,
}
impl WriteOptions {
    pub fn set_sync(&mut self, v: bool) {
        self.sync = v;
    }
    pub fn disable_wal(&mut self, v: bool) {
        self.disable_wal = v;
    }
}

#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

thread_local! {
    static FS: std::cell::RefCell<std::collections::HashMap<std::path::PathBuf, Disk>> = Default::default();
}

/// The disk behind a path, for code that opens databases by name (per simulated run).
pub fn disk_at<P: AsRef<Path>>(p: P) -> Disk {
    FS.with(|f| f.borrow_mut().entry(p.as_ref().to_path_buf()).or_default().clone())
}

impl DB {
    pub fn open<P: AsRef<Path>>(_o: &Options, p: P) -> Result<DB, Error> {
        disk_at(p).open()
    }
    pub fn open_default<P: AsRef<Path>>(p: P) -> Result<DB, Error> {
        disk_at(p).open()
    }
    fn m(&self) -> MutexGuard<'_, BTreeMap<Vec<u8>, Vec<u8>>> {
        self.mem.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> {
        simkit::coop::yield_point();
        let mut g = self.disk.g();
        g.reads += 1;
        if g.read_fault == Some(g.reads - 1) {
            g.read_fault = None;
            g.fired.push("read_error");
            return Err(Error::io("read"));
        }
        drop(g);
        Ok(self.m().get(k.as_ref()).cloned())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        let mut b = WriteBatch::default();
        b.put(k, v);
        self.write(b)
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V, o: &WriteOptions) -> Result<(), Error> {
        let mut b = WriteBatch::default();
        b.put(k, v);
        self.write_opt(b, o)
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        let mut b = WriteBatch::default();
        b.delete(k);
        self.write(b)
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.write_opt(b, &WriteOptions::default())
    }
    pub fn write_opt(&self, b: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        simkit::coop::yield_point();
        let mut g = self.disk.g();
        g.writes += 1;
        let n = g.writes - 1;
        let fault = match g.write_fault {
            Some((at, f)) if at == n => {
                g.write_fault = None;
                Some(f)
            }
            _ => None,
        };
        if g.full {
            g.fired.push("disk_full");
            return Err(Error { message: "IO error: No space left on device".into() });
        }
        match fault {
            Some(IoFault::Fail) => {
                g.fired.push("write_error");
                return Err(Error::io("write"));
            }
            Some(IoFault::CrashBefore) => {
                g.fired.push("crash_before_write");
                drop(g);
                std::panic::resume_unwind(Box::new(Crashed));
            }
            _ => {}
        }
        if !o.disable_wal {
            g.log.push(b.ops.clone());
            if o.sync {
                g.synced = g.log.len();
            }
        }
        match fault {
            Some(IoFault::CrashAfter) => {
                g.fired.push("crash_after_write");
                drop(g);
                std::panic::resume_unwind(Box::new(Crashed));
            }
            Some(IoFault::FailAfter) => {
                g.fired.push("write_error_after");
                drop(g);
                apply(&mut self.m(), &b.ops);
                return Err(Error::io("sync"));
            }
            _ => {}
        }
        drop(g);
        if std::env::var("SIM_DISK").is_ok() { eprintln!("DISK {:p} write {} ops", &self.disk, b.ops.len()); }
        apply(&mut self.m(), &b.ops);
        Ok(())
    }
    pub fn flush(&self) -> Result<(), Error> {
        self.disk.sync();
        Ok(())
    }
    fn iter_from(&self, from: &[u8]) -> DBIterator<'_> {
        simkit::coop::yield_point();
        let fail = self.disk.g().iter_fault;
        let items: Vec<_> =
            self.m().range(from.to_vec()..).map(|(k, v)| (k.clone().into_boxed_slice(), v.clone().into_boxed_slice())).collect();
        DBIterator { db: self, items: items.into_iter(), at: 0, fail, done: false }
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> DBIterator<'_> {
        self.iter_from(p.as_ref())
    }
    pub fn iterator(&self, m: IteratorMode<'_>) -> DBIterator<'_> {
        match m {
            IteratorMode::Start => self.iter_from(&[]),
            IteratorMode::From(k, Direction::Forward) => self.iter_from(k),
            _ => unimplemented!("not simulated"),
        }
    }
}

impl Drop for DB {
    fn drop(&mut self) {
        // Closing the database: what a process leaves in the page cache survives the process.
        self.disk.g().opened = false;
    }
}

pub struct DBIterator<'a> {
    db: &'a DB,
    items: std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)>,
    at: u64,
    fail: Option<u64>,
    done: bool,
}
impl Iterator for DBIterator<'_> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        if self.fail == Some(self.at) {
            self.done = true;
            self.db.disk.g().fired.push("iterator_error");
            return Some(Err(Error::io("iterator")));
        }
        self.at += 1;
        match self.items.next() {
            Some(x) => Some(Ok(x)),
            None => {
                self.done = true;
                None
            }
        }
    }
}
