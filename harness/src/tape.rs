//! An instrumented tape over an image.

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

use crate::engine::mix;
use crate::image::{noise, Image};

pub const BUDGET: &str = "HARNESS-BUDGET";

pub struct Tape<'a> {
    pub image: &'a Image,
    /// Where the image starts on the tape.
    pub base: u64,
    /// What precedes the image.
    pub before: u64,
    /// Whether what precedes the image cannot be read.
    pub sealed: bool,
    pub pos: u64,
    pub ops: u64,
    /// Fail the operation with this index, once.
    pub fail: Option<(u64, ErrorKind, bool)>,
    pub failed: bool,
    /// Deliver at most this many bytes at once: zero for no limit, otherwise drawn by the seed.
    pub chop: u64,
    /// Interrupt one read out of this many.
    pub interrupt: u64,
    interrupted: bool,
    pub bytes: u64,
    pub budget: u64,
    pub exhausted: bool,
    /// What happens before each operation, given its index.
    pub hook: Option<&'a dyn Fn(u64)>,
}

impl<'a> Tape<'a> {
    pub fn new(image: &'a Image) -> Self {
        Self::at(image, 0)
    }
    pub fn at(image: &'a Image, base: u64) -> Self {
        Tape {
            image,
            base,
            before: 0x77,
            sealed: false,
            pos: base,
            ops: 0,
            fail: None,
            failed: false,
            chop: 0,
            interrupt: 0,
            interrupted: false,
            bytes: 0,
            budget: u64::MAX,
            exhausted: false,
            hook: None,
        }
    }

    pub fn failure(at: u64, kind: ErrorKind) -> String {
        format!("injected failure {at} of kind {kind:?}")
    }

    fn step(&mut self) -> Result<()> {
        let at = self.ops;
        self.ops += 1;
        if let Some(hook) = self.hook {
            hook(at);
        }
        if let Some((index, kind, sticky)) = self.fail {
            if at == index || (sticky && at > index) {
                self.failed = true;
                return Err(Error::new(kind, Self::failure(index, kind)));
            }
        }
        Ok(())
    }
}

impl Read for Tape<'_> {
    fn read(&mut self, out: &mut [u8]) -> Result<usize> {
        self.step()?;
        if self.interrupt > 0 && !self.interrupted && mix(self.ops ^ 0xABCD) % self.interrupt == 0 {
            self.interrupted = true;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupted = false;
        let end = self.base + self.image.len;
        if self.pos >= end || out.is_empty() {
            return Ok(0);
        }
        if self.sealed && self.pos < self.base {
            return Err(Error::new(ErrorKind::Other, "what precedes the table cannot be read"));
        }
        let mut n = (out.len() as u64).min(end - self.pos);
        if self.chop > 0 {
            n = n.min(1 + mix(self.ops ^ self.chop) % (1 + self.chop % 5));
        }
        if self.bytes + n > self.budget {
            self.exhausted = true;
            return Err(Error::new(ErrorKind::Other, BUDGET));
        }
        self.bytes += n;
        let mut done = 0;
        while done < n && self.pos + done < self.base {
            out[done as usize] = noise(self.before, self.pos + done);
            done += 1;
        }
        if done < n {
            self.image.get(self.pos + done - self.base, &mut out[done as usize..n as usize]);
        }
        self.pos += n;
        Ok(n as usize)
    }
}

impl Seek for Tape<'_> {
    fn seek(&mut self, from: SeekFrom) -> Result<u64> {
        self.step()?;
        let next = match from {
            SeekFrom::Start(pos) => Some(pos),
            SeekFrom::Current(by) => self.pos.checked_add_signed(by),
            SeekFrom::End(by) => (self.base + self.image.len).checked_add_signed(by),
        };
        match next {
            Some(pos) => {
                self.pos = pos;
                Ok(pos)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}
