//! A reader that delivers its data in a hostile but legal way and, on demand,
//! fails.

use crate::core::Rng;
use std::io::{Error, ErrorKind, Read, Result};

pub struct Hostile<'a> {
    data: &'a [u8],
    pos: usize,
    rng: Rng,
    chunk: usize,
    interrupts: bool,
    /// bytes delivered before the error, kind of the error, does it persist
    fail: Option<(usize, ErrorKind, bool)>,
    failed: bool,
    pub reads: u64,
    limit: u64,
}

impl<'a> Hostile<'a> {
    pub fn new(data: &'a [u8], rng: &mut Rng) -> Self {
        let chunk = *rng.pick(&[1, 2, 3, 7, 64, 8192, usize::MAX]);
        let interrupts = rng.chance(1, 3);
        let mut own = rng.clone();
        own.next();
        rng.next();
        rng.next();
        Hostile {
            data, pos: 0, rng: own, chunk, interrupts, fail: None, failed: false, reads: 0,
            limit: 16 * data.len() as u64 + 10_000,
        }
    }

    pub fn failing(mut self, at: usize, kind: ErrorKind, persistent: bool) -> Self {
        self.fail = Some((at, kind, persistent));
        self
    }

    pub fn style(&self) -> String {
        format!("{} bytes at a time{}{}",
            if self.chunk == usize::MAX { "all".to_string() } else { self.chunk.to_string() },
            if self.interrupts { ", interrupted reads" } else { "" },
            match &self.fail {
                Some((at, k, p)) => format!(", {} error {:?} after {} bytes", if *p { "lasting" } else { "single" }, k, at),
                None => String::new(),
            })
    }
}

impl<'a> Read for Hostile<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        if self.reads > self.limit {
            // the caller goes on reading for ever
            panic!("the reader was called {} times for {} bytes", self.reads, self.data.len());
        }
        if self.interrupts && self.rng.chance(1, 5) {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut end = self.data.len();
        if let Some((at, kind, persistent)) = self.fail {
            let at = at.min(end);
            if !(self.failed && !persistent) {
                if self.pos >= at {
                    self.failed = true;
                    return Err(Error::new(kind, "injected failure"));
                }
                end = at;
            }
        }
        let mut n = buf.len().min(end - self.pos);
        if self.chunk != usize::MAX && n > 0 {
            n = n.min(1 + self.rng.usize(self.chunk));
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
