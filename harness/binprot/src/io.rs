//! readers and writers that misbehave as `std::io` allows: short transfers, interruptions, errors
use crate::props::T;
use crate::refm::*;
use crate::types::*;
use bin_prot::{from_reader, from_reader_strict, to_writer};
use std::io::{self, ErrorKind, Read, Write};

pub struct Flaky<'a> {
    d: &'a [u8],
    p: usize,
    most: u8,
    intr: u8,
    fail: bool,
    failed: bool,
}
impl<'a> Flaky<'a> {
    fn new(d: &'a [u8], most: u8, intr: u8, fail: bool) -> Self {
        Flaky { d, p: 0, most, intr, fail, failed: false }
    }
}
impl<'a> Read for Flaky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.intr > 0 && sym::choose(2) == 1 {
            self.intr -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.fail && (self.failed || sym::choose(2) == 1) {
            self.failed = true;
            return Err(ErrorKind::ConnectionReset.into());
        }
        let rest = self.d.len() - self.p;
        let m = rest.min(buf.len()).min(self.most as usize);
        if m == 0 {
            return Ok(0);
        }
        let n = 1 + sym::choose(m as u8) as usize;
        buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// the value does not depend on how the reader delivers the bytes
fn deliver<X: T>(most: u8, intr: u8) {
    let v = X::arb();
    let mut out = Vec::new();
    v.enc(&mut out);
    match from_reader::<_, X>(Flaky::new(&out, most, intr, false)) {
        Ok(w) => sym::check(w == v, 1),
        Err(_) => sym::check(false, 2),
    }
    sym::cover(1);
}
fn deliver_strict<X: T>(most: u8, intr: u8) {
    let v = X::arb();
    let mut out = Vec::new();
    v.enc(&mut out);
    let extra = sym::choose(3) as usize;
    let tail: [u8; 2] = sym::bytes();
    out.extend_from_slice(&tail[..extra]);
    match from_reader_strict::<_, X>(Flaky::new(&out, most, intr, false)) {
        Ok(w) => {
            sym::check(extra == 0, 3);
            sym::check(w == v, 4);
            sym::cover(1)
        }
        Err(_) => {
            sym::check(extra > 0, 5);
            sym::cover(2)
        }
    }
}
/// a reader that fails: never a value that was not delivered, never a panic
fn fails<X: T>(most: u8) {
    let v = X::arb();
    let mut out = Vec::new();
    v.enc(&mut out);
    let n = out.len();
    let mut f = Flaky::new(&out, most, 0, true);
    match from_reader::<_, X>(&mut f) {
        Ok(w) => {
            sym::check(w == v, 6);
            sym::check(f.p == n, 7);
            sym::cover(1)
        }
        Err(e) => {
            sym::check(f.failed, 8);
            sym::check(matches!(e, bin_prot::error::Error::Io(ref i) if i.kind() == ErrorKind::ConnectionReset), 9);
            sym::cover(2)
        }
    }
}
fn fails_strict<X: T>(most: u8) {
    let v = X::arb();
    let mut out = Vec::new();
    v.enc(&mut out);
    let n = out.len();
    let mut f = Flaky::new(&out, most, 0, true);
    match from_reader_strict::<_, X>(&mut f) {
        Ok(w) => {
            sym::check(w == v, 10);
            sym::check(f.p == n && !f.failed, 11);
            sym::cover(3)
        }
        Err(_) => {
            sym::check(f.failed, 12);
            sym::cover(4)
        }
    }
}
/// one byte per call; call `at` is interrupted, or it and all later ones fail
struct Drip<'a> {
    d: &'a [u8],
    p: usize,
    call: u8,
    at: u8,
    fail: bool,
    hit: bool,
}
impl<'a> Read for Drip<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let c = self.call;
        self.call = self.call.saturating_add(1);
        if c == self.at || (self.fail && c > self.at) {
            self.hit = true;
            return Err(if self.fail { ErrorKind::ConnectionReset.into() } else { ErrorKind::Interrupted.into() });
        }
        if self.p == self.d.len() {
            return Ok(0);
        }
        buf[0] = self.d[self.p];
        self.p += 1;
        Ok(1)
    }
}
/// every type, byte by byte, interrupted or cut at every call
pub fn drip<X: T>() {
    let v = X::arb();
    let mut out = Vec::new();
    v.enc(&mut out);
    let n = out.len() as u8;
    let at = sym::choose(n + 2);
    let fail = sym::choose(2) == 1;
    let strict = sym::choose(2) == 1;
    let mut f = Drip { d: &out, p: 0, call: 0, at, fail, hit: false };
    let r = if strict { from_reader_strict::<_, X>(&mut f) } else { from_reader::<_, X>(&mut f) };
    match r {
        Ok(w) => {
            sym::check(w == v, 31);
            sym::check(f.p == out.len(), 32);
            sym::check(!f.hit || !fail, 33);
            sym::cover(1)
        }
        Err(_) => {
            sym::check(f.hit && fail, 34);
            sym::cover(2)
        }
    }
}
/// the same for writing
struct DripSink {
    got: Vec<u8>,
    call: u8,
    at: u8,
    mode: u8,
    hit: bool,
}
impl Write for DripSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let c = self.call;
        self.call = self.call.saturating_add(1);
        if c == self.at || (self.mode > 0 && c > self.at) {
            self.hit = true;
            return match self.mode {
                0 => Err(ErrorKind::Interrupted.into()),
                1 => Err(ErrorKind::BrokenPipe.into()),
                _ => Ok(0),
            };
        }
        self.got.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn drop_by_drop<X: T>() {
    let v = X::arb();
    let mut want = Vec::new();
    v.enc(&mut want);
    let at = sym::choose(want.len() as u8 + 1);
    let mode = sym::choose(3);
    let mut s = DripSink { got: Vec::new(), call: 0, at, mode, hit: false };
    match to_writer(&mut s, &v) {
        Ok(()) => {
            sym::check(s.got == want, 41);
            sym::check(!s.hit || mode == 0, 42);
            sym::cover(1)
        }
        Err(_) => {
            sym::check(s.hit && mode > 0, 43);
            sym::check(s.got.len() == at as usize && s.got[..] == want[..s.got.len()], 44);
            sym::cover(2)
        }
    }
}
pub fn h_read_i64() {
    deliver::<i64>(4, 1)
}
pub fn h_read_rec() {
    deliver::<Rec>(3, 1)
}
pub fn h_read_string() {
    deliver::<(u8, String)>(3, 1)
}
pub fn h_read_vec() {
    deliver::<Vec<Option<u8>>>(3, 1)
}
pub fn h_read_poly() {
    deliver::<P>(3, 1)
}
pub fn h_read_float() {
    deliver::<(F32, F64)>(4, 0)
}
pub fn h_strict_rec() {
    deliver_strict::<Rec>(3, 1)
}
pub fn h_strict_vec() {
    deliver_strict::<Vec<u8>>(3, 1)
}
pub fn h_strict_string() {
    deliver_strict::<String>(2, 1)
}
pub fn h_strict_i64() {
    deliver_strict::<i64>(2, 0)
}
pub fn h_fail_rec() {
    fails::<Rec>(3)
}
pub fn h_fail_string() {
    fails::<String>(3)
}
pub fn h_fail_vec() {
    fails::<Vec<i16>>(4)
}
pub fn h_fail_float() {
    fails::<F64>(4)
}

pub fn h_sfail_rec() {
    fails_strict::<Rec>(3)
}
pub fn h_sfail_string() {
    fails_strict::<String>(3)
}
pub fn h_sfail_vec() {
    fails_strict::<Vec<i16>>(4)
}
pub fn h_sfail_float() {
    fails_strict::<F64>(4)
}

/// n-th call that may transfer less, be interrupted, or fail
struct Sink {
    got: Vec<u8>,
    intr: u8,
    fail: bool,
    failed: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.intr > 0 && sym::choose(2) == 1 {
            self.intr -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.fail && (self.failed || sym::choose(2) == 1) {
            self.failed = true;
            return if sym::choose(2) == 1 { Err(ErrorKind::BrokenPipe.into()) } else { Ok(0) };
        }
        let n = 1 + sym::choose(b.len().min(8) as u8) as usize;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// success means every byte arrived, in order; failure means a prefix did
fn emit<X: T>(intr: u8, fail: bool) {
    let v = X::arb();
    let mut want = Vec::new();
    v.enc(&mut want);
    let mut s = Sink { got: Vec::new(), intr, fail, failed: false };
    match to_writer(&mut s, &v) {
        Ok(()) => {
            sym::check(!s.failed, 21);
            sym::check(s.got == want, 22);
            sym::cover(1)
        }
        Err(_) => {
            sym::check(s.failed, 23);
            sym::check(s.got.len() < want.len() && s.got[..] == want[..s.got.len()], 24);
            sym::cover(2)
        }
    }
}
pub fn h_write_i64() {
    emit::<i64>(1, false)
}
pub fn h_write_f32() {
    emit::<F32>(2, false)
}
pub fn h_write_f64() {
    emit::<F64>(1, false)
}
pub fn h_write_rec() {
    emit::<Rec>(1, false)
}
pub fn h_write_string() {
    emit::<Option<String>>(1, false)
}
pub fn h_write_vec() {
    emit::<Vec<i16>>(1, false)
}
pub fn h_write_poly() {
    emit::<P>(1, false)
}
pub fn h_write_v() {
    emit::<V>(1, false)
}
pub fn h_wfail_rec() {
    emit::<Rec>(0, true)
}
pub fn h_wfail_poly() {
    emit::<P>(0, true)
}
pub fn h_wfail_f64() {
    emit::<F64>(0, true)
}
pub fn h_wfail_text() {
    emit::<Text>(0, true)
}
pub fn h_wfail_v() {
    emit::<V>(0, true)
}
