//! Reads ustar archives the way the tar crate does, as far as the snapshot loader uses it.
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::io::{self, Read};
use std::path::Path;

pub struct Archive<R> {
    obj: RefCell<R>,
    pos: Cell<u64>,
}
pub struct Entries<'a, R: Read> {
    archive: &'a Archive<R>,
    next: u64,
    done: bool,
}
pub struct Entry<'a, R: Read> {
    archive: &'a Archive<R>,
    name: String,
    size: u64,
    /// where the unread rest of the file starts, and how long it is
    pos: u64,
    left: u64,
}

fn other(s: &str) -> io::Error {
    io::Error::new(io::ErrorKind::Other, s.to_string())
}

impl<R: Read> Archive<R> {
    pub fn new(obj: R) -> Self {
        Archive { obj: RefCell::new(obj), pos: Cell::new(0) }
    }
    pub fn entries(&mut self) -> io::Result<Entries<'_, R>> {
        if self.pos.get() != 0 {
            return Err(other("cannot call entries unless archive is at position 0"));
        }
        Ok(Entries { archive: self, next: 0, done: false })
    }
    fn read(&self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.obj.borrow_mut().read(b)?;
        self.pos.set(self.pos.get() + n as u64);
        Ok(n)
    }
    /// false: the archive ends here
    fn read_all(&self, b: &mut [u8]) -> io::Result<bool> {
        let mut n = 0;
        while n < b.len() {
            match self.read(&mut b[n..])? {
                0 if n == 0 => return Ok(false),
                0 => return Err(other("failed to read entire block")),
                k => n += k,
            }
        }
        Ok(true)
    }
    fn skip(&self, mut n: u64) -> io::Result<()> {
        let mut buf = [0u8; 4096];
        while n > 0 {
            let want = n.min(4096) as usize;
            match self.read(&mut buf[..want])? {
                0 => return Err(other("unexpected EOF during skip")),
                k => n -= k as u64,
            }
        }
        Ok(())
    }
}

impl<'a, R: Read> Entries<'a, R> {
    fn next_entry(&mut self) -> io::Result<Option<Entry<'a, R>>> {
        self.archive.skip(self.next - self.archive.pos.get())?;
        let mut h = [0u8; 512];
        loop {
            if !self.archive.read_all(&mut h)? {
                return Ok(None);
            }
            self.next += 512;
            if h.iter().any(|x| *x != 0) {
                break;
            }
            // one block of zeros is followed by another one at the end of the archive
            if !self.archive.read_all(&mut h)? || h.iter().all(|x| *x == 0) {
                return Ok(None);
            }
            self.next += 512;
            return Err(other("unexpected data after a zero block"));
        }
        let sum: u64 = h[..148].iter().chain(&h[156..]).map(|x| *x as u64).sum::<u64>() + 8 * 32;
        if sum != octal(&h[148..156])? {
            return Err(other("archive header checksum mismatch"));
        }
        let name = std::str::from_utf8(&h[..100]).map_err(|_| other("name is not utf-8"))?.trim_end_matches('\0').to_string();
        let size = octal(&h[124..136])?;
        let pos = self.next;
        self.next = pos
            .checked_add(size.checked_add(511).ok_or_else(|| other("size overflow"))? / 512 * 512)
            .ok_or_else(|| other("size overflow"))?;
        Ok(Some(Entry { archive: self.archive, name, size, pos, left: size }))
    }
}

fn octal(b: &[u8]) -> io::Result<u64> {
    let s = std::str::from_utf8(b).map_err(|_| other("numeric field was not a number"))?;
    u64::from_str_radix(s.trim_matches(|c| c == '\0' || c == ' '), 8).map_err(|_| other("numeric field was not a number"))
}

impl<'a, R: Read> Iterator for Entries<'a, R> {
    type Item = io::Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        match self.next_entry() {
            Ok(Some(e)) => Some(Ok(e)),
            Ok(None) => {
                self.done = true;
                None
            }
            Err(e) => {
                self.done = true;
                Some(Err(e))
            }
        }
    }
}

impl<'a, R: Read> Entry<'a, R> {
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        Ok(Cow::Borrowed(Path::new(&self.name)))
    }
    pub fn size(&self) -> u64 {
        self.size
    }
}
impl<'a, R: Read> Read for Entry<'a, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.archive.pos.get() != self.pos {
            // the archive has gone on to a later entry
            return Ok(0);
        }
        let n = b.len().min(self.left as usize);
        let n = if n == 0 { 0 } else { self.archive.read(&mut b[..n])? };
        self.pos += n as u64;
        self.left -= n as u64;
        Ok(n)
    }
}
