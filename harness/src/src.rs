//! The underlying byte stream handed to the library: in-memory or sparse data, short reads,
//! injected failures. Failures are armed per step and whether one fired is an observation.

use serde_json::Value;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Ctl {
    armed: bool,
    at: i64,
    on: String,
    kind: String,
    os: i32,
    times: i64,
    fired: i64,
    last: &'static str,
    pos: u64,
}

static CTL: Mutex<Option<Ctl>> = Mutex::new(None);
static IOS: AtomicI64 = AtomicI64::new(0);

static SEEKS: AtomicI64 = AtomicI64::new(0);

pub fn seeks() -> i64 {
    SEEKS.swap(0, Ordering::Relaxed)
}

/// The number of read and seek calls since the last call of this function.
pub fn ios() -> i64 {
    IOS.swap(0, Ordering::Relaxed)
}

/// Arms a failure for the current step: {"at":k,"on":"read|seek|any","kind":"Other","times":n}
pub fn arm(st: &Value) {
    let f = &st["fault"];
    if f.is_null() {
        return;
    }
    *CTL.lock().unwrap() = Some(Ctl {
        armed: true,
        at: f["at"].as_i64().unwrap_or(0),
        on: f["on"].as_str().unwrap_or("any").to_string(),
        kind: f["kind"].as_str().unwrap_or("Other").to_string(),
        os: f["os"].as_i64().unwrap_or(0) as i32,
        times: f["times"].as_i64().unwrap_or(1),
        fired: 0,
        last: "",
        pos: 0,
    });
}

pub fn disarm() {
    *CTL.lock().unwrap() = None;
}

pub fn fired() -> i64 {
    CTL.lock().unwrap().as_ref().map_or(0, |c| c.fired)
}

/// What failed last: "read", "seek" or nothing.
pub fn last() -> &'static str {
    CTL.lock().unwrap().as_ref().map_or("", |c| c.last)
}

/// Where the stream was when that happened.
pub fn pos() -> u64 {
    CTL.lock().unwrap().as_ref().map_or(0, |c| c.pos)
}

fn kind_of(k: &str) -> ErrorKind {
    use ErrorKind::*;
    for x in [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable,
        NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
        NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory,
        IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput,
        InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable,
        QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock,
        CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong, Interrupted,
        Unsupported, UnexpectedEof, OutOfMemory, Other,
    ] {
        if format!("{x:?}") == k {
            return x;
        }
    }
    panic!("vexec: error kind {k}")
}

/// Whether the call is to report the end of the stream although it goes on.
fn check(what: &'static str, pos: u64) -> Result<bool> {
    IOS.fetch_add(1, Ordering::Relaxed);
    let mut g = CTL.lock().unwrap();
    if let Some(c) = g.as_mut() {
        if c.armed && (c.on == "any" || c.on == what) {
            if c.at == 0 {
                c.fired += 1;
                c.last = what;
                c.pos = pos;
                c.times -= 1;
                if c.times == 0 {
                    c.armed = false;
                }
                if c.kind == "Pause" {
                    return Ok(true);
                }
                return Err(match c.os {
                    0 => Error::new(kind_of(&c.kind), "injected failure"),
                    // as the operating system reports it
                    n => Error::from_raw_os_error(n),
                });
            }
            c.at -= 1;
        }
    }
    Ok(false)
}

/// Piecewise data: (start, bytes) extents, zeros between them, up to len.
struct Data {
    ext: Vec<(u64, Vec<u8>)>,
    len: u64,
}

#[derive(Clone)]
pub struct Src {
    data: Arc<Data>,
    pos: u64,
    chunk: Arc<Vec<usize>>,
    nread: usize,
}

impl Src {
    /// {"file":path} or {"ext":[[start,path],..],"len":n}, optional "pos" and "chunk":[sizes]
    pub fn open(st: &Value) -> Src {
        let data = if let Some(p) = st["file"].as_str() {
            let b = std::fs::read(p).expect("vexec: read file");
            Data { len: b.len() as u64, ext: vec![(0, b)] }
        } else {
            let ext = st["ext"]
                .as_array()
                .expect("vexec: ext")
                .iter()
                .map(|e| {
                    let b = std::fs::read(e[1].as_str().unwrap()).expect("vexec: read ext");
                    (e[0].as_u64().unwrap(), b)
                })
                .collect();
            Data { ext, len: st["len"].as_u64().unwrap() }
        };
        let chunk = st["chunk"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
            .unwrap_or_default();
        Src {
            data: Arc::new(data),
            pos: st["pos"].as_u64().unwrap_or(0),
            chunk: Arc::new(chunk),
            nread: 0,
        }
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if check("read", self.pos)? || buf.is_empty() || self.pos >= self.data.len {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.chunk.is_empty() {
            n = n.min(self.chunk[self.nread % self.chunk.len()].max(1));
            self.nread += 1;
        }
        n = n.min((self.data.len - self.pos).min(1 << 30) as usize);
        // inside an extent?
        for (start, b) in &self.data.ext {
            let end = start + b.len() as u64;
            if *start <= self.pos && self.pos < end {
                n = n.min((end - self.pos) as usize);
                let o = (self.pos - start) as usize;
                buf[..n].copy_from_slice(&b[o..o + n]);
                self.pos += n as u64;
                return Ok(n);
            }
            if self.pos < *start {
                n = n.min((start - self.pos).min(1 << 30) as usize);
            }
        }
        buf[..n].fill(0);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        SEEKS.fetch_add(1, Ordering::Relaxed);
        check("seek", self.pos)?;
        let p: i128 = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
