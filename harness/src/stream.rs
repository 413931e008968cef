//! Streams under test control: small pieces, interruptions, faults at the n-th operation.
use std::io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Clone, Default)]
pub struct Plan {
    /// at most this many bytes per call (0: no limit)
    pub chunk: usize,
    /// every n-th call fails with Interrupted (0: never)
    pub interrupt: usize,
    /// fail the operation with this index (reads, writes and seeks all count)
    pub fault: Option<(usize, ErrorKind)>,
    /// the fault lasts: every later operation fails as well
    pub sticky: bool,
    /// a write of no bytes at this operation
    pub zero: Option<usize>,
}

pub struct Stream {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub calls: usize,
    /// index of operations proper, without interrupted calls
    pub ops: usize,
    pub fired: bool,
    pub log: Vec<u8>,
}

impl Stream {
    pub fn new(data: Vec<u8>, pos: u64, plan: Plan) -> Self {
        Stream { data, pos, plan, calls: 0, ops: 0, fired: false, log: vec![] }
    }
    fn op(&mut self, what: u8) -> io::Result<()> {
        self.calls += 1;
        if what != b's' && self.plan.interrupt > 0 && self.calls % self.plan.interrupt == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let i = self.ops;
        self.ops += 1;
        if self.log.len() < 4096 {
            self.log.push(what);
        }
        if let Some((n, k)) = self.plan.fault {
            if i == n || (self.plan.sticky && i > n) {
                self.fired = true;
                return Err(Error::from(k));
            }
        }
        Ok(())
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.op(b'r')?;
        let p = (self.pos as usize).min(self.data.len());
        let mut n = buf.len().min(self.data.len() - p);
        if self.plan.chunk > 0 {
            n = n.min(self.plan.chunk);
        }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.op(b'w')?;
        let mut n = buf.len();
        if self.plan.zero == Some(self.ops - 1) && n > 0 {
            self.fired = true;
            return Ok(0);
        }
        if self.plan.chunk > 0 {
            n = n.min(self.plan.chunk);
        }
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Seek for Stream {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.op(b's')?;
        let new = match to {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if new < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = new as u64;
        Ok(self.pos)
    }
}
