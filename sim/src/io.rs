//! Drivers of the standard writer interface over faulty sources and sinks.

use crate::rng::Rng;
use crate::sut::Hasher;
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, BufReader, BufWriter, ErrorKind, IoSlice, LineWriter, Read, Write};

pub const HOWS: u64 = 15;

pub struct Outcome {
    /// Bytes the hasher acknowledged or, through an adaptor, was handed.
    pub result: Result<usize, String>,
    pub faults: Vec<&'static str>,
    pub flushed: bool,
}

/// A source that follows a plan of short, interrupted and failing reads.
struct Source<'a> {
    data: &'a [u8],
    pos: &'a Cell<usize>,
    acts: RefCell<std::vec::IntoIter<u64>>,
    faults: &'a RefCell<Vec<&'static str>>,
    dead: &'a Cell<bool>,
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.dead.get() {
            return Err(io::Error::from(ErrorKind::ConnectionReset));
        }
        let left = self.data.len() - self.pos.get();
        let mut limit = left;
        if let Some(a) = self.acts.borrow_mut().next() {
            let fault = |f| self.faults.borrow_mut().push(f);
            match a % 8 {
                0..=3 => {
                    limit = ((a >> 3) as usize).max(1).min(left);
                    if limit < left.min(buf.len()) {
                        fault("fault: short read");
                    }
                }
                4 | 5 => {
                    fault("fault: interrupted read");
                    return Err(io::Error::from(ErrorKind::Interrupted));
                }
                6 => {
                    fault("fault: would-block read");
                    return Err(io::Error::from(ErrorKind::WouldBlock));
                }
                _ => {
                    if (a >> 3) % 4 == 0 {
                        fault("fault: source fails for good");
                        self.dead.set(true);
                        return Err(io::Error::from(ErrorKind::ConnectionReset));
                    }
                    fault("fault: source fails once");
                    return Err(io::Error::from(ErrorKind::TimedOut));
                }
            }
        }
        let n = limit.min(buf.len());
        let p = self.pos.get();
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.set(p + n);
        Ok(n)
    }
}

/// Forwards to a second sink that accepts what it likes, and hashes what it
/// accepted.
struct Tee<'a> {
    h: &'a mut dyn Write,
    acts: std::vec::IntoIter<u64>,
    accepted: &'a Cell<usize>,
    faults: &'a RefCell<Vec<&'static str>>,
}

impl<'a> Write for Tee<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len();
        if let Some(a) = self.acts.next() {
            if a % 8 > 5 {
                self.faults.borrow_mut().push("fault: interrupted write to the tee's other sink");
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            n = ((a >> 3) as usize).max(1).min(n);
            if n < buf.len() {
                self.faults.borrow_mut().push("fault: short write to the tee's other sink");
            }
        }
        self.h.write_all(&buf[..n])?;
        self.accepted.set(self.accepted.get() + n);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.h.flush()
    }
}

/// Formats as given text, in pieces.
struct Text<'a>(&'a [u8], u64);

impl<'a> std::fmt::Display for Text<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut r = Rng::new(self.1);
        let mut rest = std::str::from_utf8(self.0).unwrap();
        while !rest.is_empty() {
            let n = (r.below(200) as usize + 1).min(rest.len());
            if n == 1 {
                use std::fmt::Write;
                f.write_char(rest.as_bytes()[0] as char)?;
            } else {
                f.write_str(&rest[..n])?;
            }
            rest = &rest[n..];
        }
        Ok(())
    }
}

/// Feed up to all of `data` into the hasher through the adaptor `how`. With
/// faults that end the transfer, less is delivered.
pub fn drive(h: &mut Hasher, how: u64, cap: u64, data: &[u8], acts: &[u64], text: bool) -> Outcome {
    let faults = RefCell::new(vec![]);
    let pos = Cell::new(0);
    let dead = Cell::new(false);
    let mut flushed = false;
    let limit = acts.len() + 64;
    let source =
        || Source { data, pos: &pos, acts: RefCell::new(acts.to_vec().into_iter()), faults: &faults, dead: &dead };
    // Copy until the source is exhausted or dead; whatever the copy reports
    // must be what the source delivered.
    fn copy_all<R: Read>(
        src: &mut R,
        w: &mut dyn Write,
        pos: &Cell<usize>,
        dead: &Cell<bool>,
        limit: usize,
    ) -> Result<(), String> {
        for _ in 0..limit {
            let before = pos.get();
            match io::copy(src, w) {
                Ok(n) => {
                    if n != (pos.get() - before) as u64 {
                        return Err(format!("copy reported {} bytes, the source delivered {}", n, pos.get() - before));
                    }
                    return Ok(());
                }
                Err(_) if dead.get() => return Ok(()),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {}
                Err(e) => return Err(format!("copy failed: {}", e)),
            }
        }
        Err("a copy never ended".into())
    }
    let io_err = |what: &str, r: io::Result<()>| r.map_err(|e| format!("{} failed: {}", what, e));
    let cap = (cap % 5000) as usize;
    let result: Result<usize, String> = (|| match how % HOWS {
        // Plain write calls, honouring what is acknowledged.
        0 | 1 => {
            let mut done = 0;
            let mut steps = 0;
            let mut plan = acts.iter();
            while done < data.len() {
                let n = match plan.next() {
                    Some(a) => ((a >> 3) as usize).min(data.len() - done),
                    None => data.len() - done,
                };
                let got = h.writer().write(&data[done..done + n]).map_err(|e| format!("write failed: {}", e))?;
                if got > n {
                    return Err(format!("write acknowledged {} of {} bytes", got, n));
                }
                done += got;
                steps += 1;
                if steps > limit * 2 + data.len() {
                    return Err("writes make no progress".into());
                }
            }
            Ok(done)
        }
        2 => {
            let mut done = 0;
            for a in acts {
                let n = ((a >> 3) as usize).min(data.len() - done);
                io_err("write_all", h.writer().write_all(&data[done..done + n]))?;
                done += n;
            }
            Ok(done)
        }
        // Vectored writes.
        3 => {
            let mut done = 0;
            let mut steps = 0;
            let mut k = 0;
            while done < data.len() {
                let mut slices = vec![];
                let mut p = done;
                // Sometimes many, of which the first are empty.
                let none = if cap % 21 == 0 { cap / 2 } else { cap / 7 % 70 };
                for _ in 0..(if cap % 7 == 0 { none } else { 0 }) {
                    slices.push(IoSlice::new(&[]));
                }
                // Or more than a system call would take.
                let crowd = cap % 33 == 0;
                let some = if crowd { cap / 2 } else { cap / 11 % 70 };
                for _ in 0..(1 + if cap % 11 == 0 { some } else { cap % 5 }) {
                    let n = acts.get(k).map_or(data.len(), |a| (a >> 3) as usize).min(data.len() - p);
                    let n = if crowd { n.min(k % 3) } else { n };
                    k += 1;
                    slices.push(IoSlice::new(&data[p..p + n]));
                    p += n;
                }
                let got = h.writer().write_vectored(&slices).map_err(|e| format!("write_vectored failed: {}", e))?;
                if got > p - done {
                    return Err(format!("write_vectored acknowledged {} of {} bytes", got, p - done));
                }
                done += got;
                steps += 1;
                if steps > limit * 2 + data.len() {
                    return Err("vectored writes make no progress".into());
                }
            }
            Ok(done)
        }
        // Formatted writes.
        4 if text => {
            io_err("write_fmt", write!(h.writer(), "{}", Text(data, cap as u64)))?;
            Ok(data.len())
        }
        5 => {
            let mut src = source();
            copy_all(&mut src, h.writer(), &pos, &dead, limit)?;
            Ok(pos.get())
        }
        6 => {
            // A buffered source: bytes it holds back when the source dies
            // have not been delivered to the hasher.
            let mut src = BufReader::with_capacity(cap.max(1), source());
            let mut total = 0;
            for _ in 0..limit {
                let counted = Cell::new(0);
                struct Count<'a>(&'a mut dyn Write, &'a Cell<usize>);
                impl<'a> Write for Count<'a> {
                    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                        let n = self.0.write(b)?;
                        self.1.set(self.1.get() + n);
                        Ok(n)
                    }
                    fn flush(&mut self) -> io::Result<()> {
                        self.0.flush()
                    }
                }
                let r = io::copy(&mut src, &mut Count(h.writer(), &counted));
                total += counted.get();
                match r {
                    Ok(_) => break,
                    Err(_) if dead.get() => break,
                    Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {}
                    Err(e) => return Err(format!("copy failed: {}", e)),
                }
            }
            if total + src.buffer().len() != pos.get() {
                return Err(format!("{} bytes delivered, {} acknowledged", pos.get(), total));
            }
            Ok(total)
        }
        // A buffered writer, ended in one of three ways.
        7 | 8 => {
            let mut src = source();
            let mut w = BufWriter::with_capacity(cap, h.writer());
            let r = copy_all(&mut src, &mut w, &pos, &dead, limit);
            match acts.len() % 3 {
                0 => io_err("flush", w.flush())?,
                1 => {
                    if w.into_inner().is_err() {
                        return Err("into_inner failed".into());
                    }
                }
                _ => drop(w),
            }
            r?;
            Ok(pos.get())
        }
        9 => {
            let mut w = LineWriter::with_capacity(cap.max(1), h.writer());
            let mut done = 0;
            for a in acts {
                let n = ((a >> 3) as usize).min(data.len() - done);
                io_err("write_all to a line writer", w.write_all(&data[done..done + n]))?;
                done += n;
            }
            if acts.len() % 2 == 0 {
                io_err("flush", w.flush())?;
            }
            drop(w);
            Ok(done)
        }
        // A tee whose other sink is short and interrupted.
        10 => {
            let accepted = Cell::new(0);
            let mut t = Tee { h: h.writer(), acts: acts.to_vec().into_iter(), accepted: &accepted, faults: &faults };
            io_err("write_all to a tee", t.write_all(data))?;
            Ok(accepted.get())
        }
        11 => {
            let mut src = source();
            let accepted = Cell::new(0);
            let plan: Vec<u64> = acts.iter().rev().copied().collect();
            let mut t = Tee { h: h.writer(), acts: plan.into_iter(), accepted: &accepted, faults: &faults };
            let r = copy_all(&mut src, &mut t, &pos, &dead, limit * 2);
            r?;
            if accepted.get() != pos.get() {
                return Err(format!("{} bytes delivered, {} acknowledged", pos.get(), accepted.get()));
            }
            Ok(accepted.get())
        }
        // Through a chained and limited source, a part at a time.
        12 => {
            let mut src = source();
            for k in 0..4 * limit {
                let n = (acts.get(k % acts.len().max(1)).copied().unwrap_or(0) >> 3).max(1);
                let mut part = (&mut src).take(n);
                let before = pos.get();
                copy_all(&mut part, h.writer(), &pos, &dead, limit)?;
                if dead.get() || pos.get() == before {
                    break;
                }
            }
            Ok(pos.get())
        }
        // A line-at-a-time consumer.
        13 => {
            let mut src = BufReader::with_capacity(cap.max(1), data);
            let mut done = 0;
            let mut line = vec![];
            loop {
                line.clear();
                let n = src.read_until(b'\n', &mut line).map_err(|e| e.to_string())?;
                if n == 0 {
                    break;
                }
                io_err("write_all", h.writer().write_all(&line))?;
                done += n;
                if done % 3 == 0 {
                    io_err("flush", h.writer().flush())?;
                }
            }
            Ok(done)
        }
        // Flush, before and after an empty and a full write.
        _ => {
            flushed = true;
            io_err("flush", h.writer().flush())?;
            let z = h.writer().write(&[]).map_err(|e| e.to_string())?;
            if z != 0 {
                return Err(format!("an empty write acknowledged {} bytes", z));
            }
            io_err("flush", h.writer().flush())?;
            io_err("write_all", h.writer().write_all(data))?;
            io_err("flush", h.writer().flush())?;
            Ok(data.len())
        }
    })();
    let faults = faults.into_inner();
    Outcome { result, faults, flushed }
}
