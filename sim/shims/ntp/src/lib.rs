//! Stands in for the ntp client: the simulator decides what a server answers.

use std::sync::Mutex;

pub mod unix_time {
    #[derive(Clone, Copy, Debug)]
    pub struct Instant {
        pub(crate) secs: i64,
        pub(crate) nanos: i32,
    }
    impl Instant {
        pub fn secs(&self) -> i64 {
            self.secs
        }
        pub fn subsec_nanos(&self) -> i32 {
            self.nanos
        }
    }
    impl From<super::TimestampFormat> for Instant {
        fn from(t: super::TimestampFormat) -> Instant {
            Instant { secs: t.0, nanos: t.1 }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct TimestampFormat(i64, i32);
pub struct Packet {
    pub receive_timestamp: TimestampFormat,
}

type Server = Box<dyn Fn(&str) -> std::io::Result<(i64, i32)> + Send>;
static SERVER: Mutex<Option<Server>> = Mutex::new(None);

/// What the servers answer from now on.
pub fn simulate(f: impl Fn(&str) -> std::io::Result<(i64, i32)> + Send + 'static) {
    *SERVER.lock().unwrap_or_else(|e| e.into_inner()) = Some(Box::new(f));
}

pub fn request(addr: &str) -> std::io::Result<Packet> {
    match &*SERVER.lock().unwrap_or_else(|e| e.into_inner()) {
        Some(f) => f(addr).map(|(s, n)| Packet { receive_timestamp: TimestampFormat(s, n) }),
        None => Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "no server")),
    }
}
