//! Runs the real binary, built from /repo, in a scratch directory under a controlled clock.

use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::io::Read;
use std::os::fd::AsRawFd;
use std::process::{Command, ExitStatus, Stdio};

#[derive(Clone)]
pub struct Opts {
    pub now: i64,
    pub tz: String,
    pub tty: bool,
    /// the errno of all attempts to write (0: they work)
    pub rofs: i32,
    pub cwd: Option<PathBuf>,
    pub env: Vec<(String, String)>,
    pub fault: Option<String>,
    pub trace: Option<PathBuf>,
}

impl Opts {
    pub fn at(d: crate::date::Date) -> Opts {
        Opts::epoch(d.epoch_noon())
    }
    pub fn epoch(now: i64) -> Opts {
        Opts { now, tz: "UTC".into(), tty: true, rofs: 0, cwd: None, env: vec![], fault: None, trace: None }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

#[derive(Clone, Debug)]
pub struct Out {
    pub stdout: String,
    pub stderr: String,
    pub end: End,
}

impl Out {
    /// Ended by a panic, an abort or a signal.
    pub fn crashed(&self) -> bool {
        match self.end {
            End::Exit(101) => true,
            End::Exit(_) => self.stderr.contains("panicked at"),
            End::Signal(_) => true,
        }
    }
    /// Ended with a report and no complaint.
    pub fn ok(&self) -> bool {
        !self.crashed() && self.stderr.is_empty()
    }
    /// Ended with an error message and without any report.
    pub fn refused(&self) -> bool {
        !self.crashed() && !self.stderr.trim().is_empty() && self.stdout.trim().is_empty()
    }
}

pub struct Runner {
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub dir: PathBuf,
    pub runs: u64,
    /// Where the run leaves its coverage counters, if the binary counts.
    pub cov: Option<PathBuf>,
    /// What this case covered so far: a bit for each order of magnitude of each counter.
    pub bits: Vec<u8>,
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// More output than that counts as a crash.
const MAX_OUTPUT: usize = 8 << 20;

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}

/// Like Command::output, but ends runs that don't stop to print.
fn output(mut c: Command) -> std::io::Result<(ExitStatus, Vec<u8>, Vec<u8>)> {
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    let mut o: std::io::PipeReader = std::os::fd::OwnedFd::from(ch.stdout.take().unwrap()).into();
    let mut e: std::io::PipeReader = std::os::fd::OwnedFd::from(ch.stderr.take().unwrap()).into();
    let (mut out, mut err) = (vec![], vec![]);
    let (mut o_open, mut e_open) = (true, true);
    let mut buf = vec![0u8; 65536];
    while o_open || e_open {
        let mut fds = [
            PollFd { fd: if o_open { o.as_raw_fd() } else { -1 }, events: 1, revents: 0 },
            PollFd { fd: if e_open { e.as_raw_fd() } else { -1 }, events: 1, revents: 0 },
        ];
        if unsafe { poll(fds.as_mut_ptr(), 2, -1) } < 0 {
            continue;
        }
        if fds[0].revents != 0 {
            let n = o.read(&mut buf)?;
            o_open = n > 0;
            out.extend_from_slice(&buf[..n]);
        }
        if fds[1].revents != 0 {
            let n = e.read(&mut buf)?;
            e_open = n > 0;
            err.extend_from_slice(&buf[..n]);
        }
        if out.len() + err.len() > MAX_OUTPUT {
            let _ = ch.kill();
            break;
        }
    }
    Ok((ch.wait()?, out, err))
}

impl Runner {
    pub fn reset(&self) {
        let _ = std::env::set_current_dir("/");
        if let Ok(rd) = fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    let _ = fs::remove_dir_all(&p);
                } else {
                    let _ = fs::remove_file(&p);
                }
            }
        } else {
            fs::create_dir_all(&self.dir).expect("scratch dir");
        }
    }
    /// Err: the run told us nothing (wall clock alarm, can't spawn).
    pub fn run(&mut self, args: &[String], o: &Opts) -> Result<Out, String> {
        self.runs += 1;
        let mut c = Command::new(&self.bin);
        c.args(args)
            .stdin(Stdio::null())
            .env_clear()
            .env("LD_PRELOAD", &self.shim)
            .env("SFX_NOW", o.now.to_string())
            .env("TZ", &o.tz)
            .current_dir(o.cwd.as_ref().unwrap_or(&self.dir));
        if o.tty {
            c.env("SFX_TTY", "120");
        }
        if o.rofs != 0 {
            c.env("SFX_ROFS", o.rofs.to_string());
        }
        if let Some(f) = &o.fault {
            c.env("SFX_FAULT", f);
        }
        if let Some(t) = &o.trace {
            c.env("SFX_TRACE", t);
        }
        for (k, v) in &o.env {
            c.env(k, v);
        }
        if let Some(cov) = &self.cov {
            c.env("SFX_COV", cov);
        }
        let (status, stdout, stderr) = output(c).map_err(|e| format!("couldn't run the binary: {e}"))?;
        if let Some(b) = self.cov.as_ref().and_then(|p| fs::read(p).ok()) {
            if self.bits.len() < b.len() {
                self.bits.resize(b.len(), 0);
            }
            for (x, n) in self.bits.iter_mut().zip(&b) {
                *x |= bucket(*n);
            }
        }
        let end = match (status.code(), status.signal()) {
            _ if stdout.len() + stderr.len() > MAX_OUTPUT => End::Signal(25),
            (Some(c), _) => End::Exit(c),
            (_, Some(s)) => End::Signal(s),
            _ => End::Exit(-1),
        };
        if end == End::Signal(14) {
            return Err("the run was ended by the wall clock alarm".into());
        }
        if end == End::Exit(127) && stderr.starts_with(b"ERROR: ld.so") {
            return Err(String::from_utf8_lossy(&stderr).into());
        }
        Ok(Out {
            stdout: String::from_utf8_lossy(&stdout).into(),
            stderr: String::from_utf8_lossy(&stderr).into(),
            end,
        })
    }
}

/// Every file below `dir`, with its contents (directories as None).
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn walk(d: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    out.insert(p.clone(), None);
                    walk(&p, out);
                } else if let Ok(t) = fs::read_link(&p) {
                    out.insert(p, Some(t.into_os_string().into_encoded_bytes()));
                } else {
                    out.insert(p.clone(), fs::read(&p).ok());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, &mut m);
    m
}
