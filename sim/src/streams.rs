//! Simulated `io` objects handed to the library.
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use crate::json::J;
use crate::os::{self, *};
use crate::rng::mix;

pub struct SimWriter {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub hard: Vec<i32>,
    pub zero: u64,
    pub after_err: u64,
    pub calls: u64,
}
impl SimWriter {
    pub fn new(name: &str) -> SimWriter { SimWriter { name: name.as_bytes().to_vec(), data: Vec::new(), hard: Vec::new(), zero: 0, after_err: 0, calls: 0 } }
    pub fn failed(&self) -> bool { !self.hard.is_empty() || self.zero > 0 }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _b = Busy::new();
        self.calls += 1;
        let failed = self.failed();
        match write_limit(&self.name, self.data.len() as u64, buf.len()) {
            Ok(n) => {
                if n == 0 && !buf.is_empty() { self.zero += 1; }
                if failed { self.after_err += n as u64; }
                self.data.extend_from_slice(&buf[..n]);
                let s = sim();
                if s.evs_on && n > 0 {
                    let k = buf[..n].iter().filter(|c| **c == b'\n').count() as i64;
                    if k > 0 { let (step, t) = (s.step, tid()); s.evs.push(Ev { step, tid: t, op: "lines", path: self.name.clone(), ret: k }); }
                }
                Ok(n)
            }
            Err(e) => { if e != libc::EINTR { self.hard.push(e); } Err(if e == libc::EINTR && self.calls % 2 == 0 { io::ErrorKind::Interrupted.into() } else { mkerr(e) }) }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        let _b = Busy::new();
        match trigger("flush", &self.name) {
            Trig::Errno(e) => { self.hard.push(e); Err(mkerr(e)) }
            _ => Ok(()),
        }
    }
}

/// A reader over `data`. Plan: `frag` seed (0: everything at once), `eintr`
/// seed, `cap` largest piece, `faults`: [{off, errno, times}], `seek`: errno for
/// the nth seek.
pub struct SimReader {
    pub data: Vec<u8>,
    pub pos: usize,
    frag: u64,
    eintr: u64,
    cap: usize,
    calls: u64,
    faults: Vec<(usize, i32, i64)>,
    seek_fail: i64,
    seek_errno: i32,
    seeks: i64,
    win: usize,
    last_intr: bool,
    burst: u64,
    bursts: u64,
    pub hard: u64,
    pub read_bytes: u64,
}
impl SimReader {
    pub fn new(data: Vec<u8>, plan: &J) -> SimReader {
        SimReader { data, pos: 0, frag: plan.get("frag").int() as u64, eintr: plan.get("eintr").int() as u64,
            cap: plan.get("cap").int_or(1 << 20).clamp(1, 1 << 20) as usize, calls: 0,
            faults: plan.get("faults").items().iter().map(|f| (f.get("off").uint() as usize, f.get("errno").int() as i32, f.get("times").int_or(1))).collect(),
            seek_fail: plan.get("seekfail").int_or(-1), seek_errno: plan.get("seekerr").int_or(5) as i32, seeks: 0, win: 0, last_intr: false, burst: 0, bursts: 0, hard: 0, read_bytes: 0 }
    }
    /// how much one call may deliver, or an error
    fn limit(&mut self) -> io::Result<usize> {
        event(0x4ead, false);
        self.calls += 1;
        let s = sim();
        // interruptions, some several times in a row
        if self.eintr != 0 && self.burst == 0 && !self.last_intr {
            let h = mix(self.eintr ^ self.calls);
            if h % 3 == 0 {
                let most = match self.eintr % 12 { 0..=4 => 1, 5..=7 => 2, 8 | 9 => 4, 10 => 12, _ if self.bursts < 3 => 150, _ => 2 };
                self.bursts += 1;
                self.burst = 1 + (h >> 9) % most;
            }
        }
        if self.burst > 0 {
            self.burst -= 1;
            if self.last_intr { s.fired("reader:EINTR again"); }
            self.last_intr = true;
            s.fired("reader:EINTR");
            return Err(if self.calls % 2 == 0 { io::ErrorKind::Interrupted.into() } else { io::Error::from_raw_os_error(libc::EINTR) });
        }
        self.last_intr = false;
        for f in self.faults.iter_mut() {
            if f.0 == self.pos && f.2 > 0 {
                f.2 -= 1;
                self.hard += 1;
                s.fired(&format!("reader:{}", errname(f.1)));
                s.fired_errnos.push((f.1, "reader".into()));
                return Err(mkerr(f.1));
            }
        }
        let mut n = self.cap.min(self.data.len().saturating_sub(self.pos));
        if self.frag != 0 && n > 1 {
            let h = mix(self.frag ^ self.calls.wrapping_mul(1_000_003));
            let m = match self.frag % 4 { 0 => 1, 1 => 1 + (h as usize) % 3, 2 => 1 + (h as usize) % 80, _ => 1 + (h as usize) % n };
            if m < n { n = m; s.fired("reader:short"); }
        }
        for f in &self.faults { if f.2 > 0 && f.0 > self.pos && f.0 < self.pos + n { n = f.0 - self.pos; } }
        self.read_bytes += n as u64;
        Ok(n)
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut b = Busy::new();
        if buf.is_empty() { return Ok(0); }
        if self.win > 0 {
            let n = self.win.min(buf.len());
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n; self.win -= n;
            return Ok(n);
        }
        match self.limit() {
            Ok(n) => {
                let n = n.min(buf.len());
                let p = self.pos.min(self.data.len());
                buf[..n].copy_from_slice(&self.data[p..p + n]);
                self.pos += n;
                Ok(n)
            }
            Err(e) => { b.fail(e.raw_os_error().unwrap_or(5)); Err(e) }
        }
    }
}
impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let _b = Busy::new();
        if self.win == 0 { self.win = self.limit()?; }
        let p = self.pos.min(self.data.len());
        Ok(&self.data[p..p + self.win])
    }
    fn consume(&mut self, n: usize) { let n = n.min(self.win); self.pos += n; self.win -= n; }
}
impl Seek for SimReader {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let _b = Busy::new();
        event(0x5ee4, false);
        let k = self.seeks;
        self.seeks += 1;
        if k == self.seek_fail {
            let s = sim();
            self.hard += 1;
            s.fired(&format!("seek:{}", os::errname(self.seek_errno)));
            s.fired_errnos.push((self.seek_errno, "seek".into()));
            return Err(mkerr(self.seek_errno));
        }
        let np = match p { SeekFrom::Start(n) => n as i128, SeekFrom::End(d) => self.data.len() as i128 + d as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128 };
        if np < 0 { return Err(io::Error::from_raw_os_error(libc::EINVAL)); }
        self.pos = (np.min(usize::MAX as i128 / 2)) as usize;
        self.win = 0;
        Ok(self.pos as u64)
    }
}
