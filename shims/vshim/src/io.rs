//! Contract of `std::io` as used by codecs: readers and writers over memory.
//! Errors keep their kind and drop their payload.
pub use ::std::io::*;

pub struct Error {
    kind: ErrorKind,
}
pub type Result<T> = ::std::result::Result<T, Error>;

impl Error {
    pub fn new<E>(kind: ErrorKind, e: E) -> Self {
        ::std::mem::forget(e);
        Error { kind }
    }
    pub fn other<E>(e: E) -> Self {
        ::std::mem::forget(e);
        Error { kind: ErrorKind::Other }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}
impl From<ErrorKind> for Error {
    fn from(kind: ErrorKind) -> Self {
        Error { kind }
    }
}
impl ::std::fmt::Debug for Error {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("io error")
    }
}
impl ::std::fmt::Display for Error {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("io error")
    }
}
impl ::std::error::Error for Error {}

pub trait Read {
    /// Transfers min(buf.len(), available) bytes and returns that count.
    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;

    /// Fills `buf` completely or fails with UnexpectedEof.
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let n = self.read(buf)?;
        if n == buf.len() {
            Ok(())
        } else {
            Err(Error { kind: ErrorKind::UnexpectedEof })
        }
    }
    /// Number of bytes left (all readers here are in memory).
    #[doc(hidden)]
    fn left(&self) -> usize;

    /// Appends everything left.
    fn read_to_end(&mut self, out: &mut Vec<u8>) -> Result<usize> {
        let n = self.left();
        let start = out.len();
        out.resize(start + n, 0);
        self.read(&mut out[start..])
    }
    fn read_to_string(&mut self, out: &mut String) -> Result<usize> {
        let mut v = Vec::new();
        let n = self.read_to_end(&mut v)?;
        match String::from_utf8(v) {
            Ok(s) => {
                out.push_str(&s);
                Ok(n)
            }
            Err(_) => Err(Error { kind: ErrorKind::InvalidData }),
        }
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
    fn take(self, limit: u64) -> Take<Self>
    where
        Self: Sized,
    {
        Take { inner: self, limit }
    }
}

pub struct Take<R> {
    inner: R,
    limit: u64,
}
impl<R> Take<R> {
    pub fn limit(&self) -> u64 {
        self.limit
    }
    pub fn into_inner(self) -> R {
        self.inner
    }
}
impl<R: Read> Read for Take<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let m = if (buf.len() as u64) < self.limit {
            buf.len()
        } else {
            self.limit as usize
        };
        let n = self.inner.read(&mut buf[..m])?;
        self.limit -= n as u64;
        Ok(n)
    }
    fn left(&self) -> usize {
        let l = self.inner.left();
        if (l as u64) < self.limit {
            l
        } else {
            self.limit as usize
        }
    }
}
impl<R: Read + ?Sized> Read for &mut R {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        (**self).read(buf)
    }
    fn left(&self) -> usize {
        (**self).left()
    }
}
impl<R: Read + ?Sized> Read for Box<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        (**self).read(buf)
    }
    fn left(&self) -> usize {
        (**self).left()
    }
}
impl Read for &[u8] {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = if self.len() < buf.len() { self.len() } else { buf.len() };
        let (a, b) = self.split_at(n);
        buf[..n].copy_from_slice(a);
        *self = b;
        Ok(n)
    }
    fn left(&self) -> usize {
        self.len()
    }
}

pub struct Cursor<T> {
    inner: T,
    pos: u64,
}
impl<T> Cursor<T> {
    pub fn new(inner: T) -> Self {
        Cursor { inner, pos: 0 }
    }
    pub fn position(&self) -> u64 {
        self.pos
    }
    pub fn set_position(&mut self, p: u64) {
        self.pos = p
    }
    pub fn into_inner(self) -> T {
        self.inner
    }
    pub fn get_ref(&self) -> &T {
        &self.inner
    }
}
impl<T: AsRef<[u8]>> Read for Cursor<T> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let s = self.inner.as_ref();
        let p = if (self.pos as usize) < s.len() { self.pos as usize } else { s.len() };
        let mut rest = &s[p..];
        let n = rest.read(buf)?;
        self.pos += n as u64;
        Ok(n)
    }
    fn left(&self) -> usize {
        let l = self.inner.as_ref().len();
        if (self.pos as usize) < l { l - self.pos as usize } else { 0 }
    }
}

pub trait Write {
    fn write(&mut self, buf: &[u8]) -> Result<usize>;
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let n = self.write(buf)?;
        if n == buf.len() {
            Ok(())
        } else {
            Err(Error { kind: ErrorKind::WriteZero })
        }
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
}
impl Write for Vec<u8> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.extend_from_slice(buf);
        Ok(buf.len())
    }
}
impl<W: Write + ?Sized> Write for &mut W {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        (**self).write(buf)
    }
}
impl<W: Write + ?Sized> Write for Box<W> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        (**self).write(buf)
    }
}
impl Write for &mut [u8] {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = if buf.len() < self.len() { buf.len() } else { self.len() };
        let (a, b) = ::std::mem::take(self).split_at_mut(n);
        a.copy_from_slice(&buf[..n]);
        *self = b;
        Ok(n)
    }
}

pub mod prelude {
    pub use super::{Read, Write};
}
