//! Symbolic texts and byte strings.
use crate::rt::*;
use pw_diff_lib::sequence::Seq;
use std::io::{self, Read, Write};

pub fn string(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}

/// n one-character lines (arbitrary ASCII, no newline inside)
pub fn one_char(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    let mut l = Vec::with_capacity(n);
    for b in v {
        assume((b < 0x80) & (b != b'\n'));
        l.push(vec![b]);
    }
    l
}

/// n lines of one arbitrary character; all end in a newline but the last may not
pub fn lines(n: usize, final_newline: bool) -> Vec<Vec<u8>> {
    let mut l = one_char(n);
    for (i, x) in l.iter_mut().enumerate() {
        if i + 1 < n || final_newline {
            x.push(b'\n');
        }
    }
    l
}

pub fn any_lines(n: usize) -> Vec<Vec<u8>> {
    let nl = n == 0 || choose(2) == 0;
    lines(n, nl)
}

/// up to `max` lines of 0 to 2 arbitrary ASCII characters, or of one two-byte character
pub fn wide_lines(max: usize) -> Vec<Vec<u8>> {
    let n = choose(max + 1);
    let mut l = Vec::with_capacity(n);
    for i in 0..n {
        l.push(wide_line(i + 1 < n || choose(2) == 0));
    }
    l
}

/// a line of 0 to 2 arbitrary ASCII characters, or of one two-byte character
pub fn wide_line(newline: bool) -> Vec<u8> {
    let k = if newline { choose(3) } else { 1 + choose(2) };
    let mut x = any_bytes(k);
    for b in &x {
        assume(*b != b'\n');
    }
    if k == 1 {
        assume(x[0] < 0x80);
    } else if k == 2 {
        let ascii = (x[0] < 0x80) & (x[1] < 0x80);
        let pair = (x[0] >= 0xc2) & (x[0] < 0xe0) & (x[1] >= 0x80) & (x[1] < 0xc0);
        assume(ascii | pair);
    }
    if newline {
        x.push(b'\n');
    }
    x
}

pub fn seq(l: &[Vec<u8>]) -> Seq<String> {
    let mut v = Vec::with_capacity(l.len());
    for x in l {
        v.push(string(x.clone()));
    }
    Seq(v.into_boxed_slice())
}

pub fn bseq(l: &[u8]) -> Seq<u8> {
    Seq(l.to_vec().into_boxed_slice())
}

pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    v
}

pub fn join(l: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for x in l {
        o.extend_from_slice(x);
    }
    o
}

/// equality of two lists of lines as one condition
pub fn lines_eq(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= eq(&a[i], &b[i]);
    }
    r
}

pub fn strs(a: &[String]) -> Vec<Vec<u8>> {
    a.iter().map(|s| s.as_bytes().to_vec()).collect()
}

/// A reader that delivers its data in arbitrary portions, and may be interrupted or fail.
pub struct Portions<'a> {
    pub data: &'a [u8],
    pub at: usize,
    pub interrupts: usize,
    pub may_fail: bool,
    pub failed: bool,
}

impl<'a> Portions<'a> {
    pub fn new(data: &'a [u8], interrupts: usize, may_fail: bool) -> Self {
        Portions { data, at: 0, interrupts, may_fail, failed: false }
    }
}

impl<'a> Read for Portions<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupts > 0 && choose(2) == 1 {
            self.interrupts -= 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.may_fail && choose(2) == 1 {
            self.failed = true;
            self.may_fail = false;
            return Err(io::Error::from(io::ErrorKind::TimedOut));
        }
        let left = (self.data.len() - self.at).min(buf.len());
        if left == 0 {
            return Ok(0);
        }
        let n = 1 + choose(left);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// A writer that takes arbitrary portions, and may be interrupted or fail.
pub struct Sink {
    pub out: Vec<u8>,
    pub shorts: usize,
    pub may_fail: bool,
    pub failed: bool,
}

impl Sink {
    pub fn new(shorts: usize, may_fail: bool) -> Self {
        Sink { out: vec![], shorts, may_fail, failed: false }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.may_fail && choose(2) == 1 {
            self.failed = true;
            return Err(io::Error::from(io::ErrorKind::TimedOut));
        }
        if self.shorts > 0 && b.len() > 1 && choose(2) == 1 {
            self.shorts -= 1;
            self.out.push(b[0]);
            return Ok(1);
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
