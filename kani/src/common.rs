//! Stub targets, the in-memory stream and small helpers shared by all harnesses.
use std::io::{Read, Result, Seek, SeekFrom, Write};

/// Drop of an `io::Error` payload (a boxed trait object): leaking it is unobservable.
pub fn drop_stub(_: &mut core::io::CustomOwner) {}
/// Error-message text is never part of a claim.
pub fn fmt_stub(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
/// `terminal_error` for claims of the form "if the operation succeeds then ...".
pub fn prune() {
    kani::assume(false)
}
/// `terminal_error` for claims of the form "the operation succeeds".
pub fn must_not_fail() {
    assert!(false, "the operation reports an error")
}

/// `#[kani::proof]` with the stubs every codec harness uses.
#[macro_export]
macro_rules! ok_implies {
    ($name:ident, $unwind:expr, $body:block) => {
        #[kani::proof]
        #[kani::stub(<core::io::error::CustomOwner as core::ops::Drop>::drop, $crate::common::drop_stub)]
        #[kani::stub(binrw::verif::terminal_error, $crate::common::prune)]
        #[kani::stub(alloc::fmt::format, $crate::common::fmt_stub)]
        #[kani::unwind($unwind)]
        fn $name() $body
    };
}
#[macro_export]
macro_rules! must_succeed {
    ($name:ident, $unwind:expr, $body:block) => {
        #[kani::proof]
        #[kani::stub(<core::io::error::CustomOwner as core::ops::Drop>::drop, $crate::common::drop_stub)]
        #[kani::stub(binrw::verif::terminal_error, $crate::common::must_not_fail)]
        #[kani::stub(alloc::fmt::format, $crate::common::fmt_stub)]
        #[kani::unwind($unwind)]
        fn $name() $body
    };
}
/// Errors are ordinary results here (neither pruned nor forbidden).
#[macro_export]
macro_rules! total {
    ($name:ident, $unwind:expr, $body:block) => {
        #[kani::proof]
        #[kani::stub(<core::io::error::CustomOwner as core::ops::Drop>::drop, $crate::common::drop_stub)]
        #[kani::stub(alloc::fmt::format, $crate::common::fmt_stub)]
        #[kani::unwind($unwind)]
        fn $name() $body
    };
}

/// Fixed-size in-memory stream without I/O errors: leaving the buffer is an assertion failure.
pub struct Mem<const N: usize> {
    pub b: [u8; N],
    pub p: usize,
}
impl<const N: usize> Mem<N> {
    pub fn any() -> Self {
        Mem { b: kani::any(), p: 0 }
    }
    pub fn zero() -> Self {
        Mem { b: [0; N], p: 0 }
    }
    pub fn of(b: [u8; N]) -> Self {
        Mem { b, p: 0 }
    }
}
impl<const N: usize> Read for Mem<N> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.read_exact(buf)?;
        Ok(buf.len())
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let n = buf.len();
        assert!(n <= N && self.p <= N - n, "read past the end of the image");
        let mut i = 0;
        while i < n {
            buf[i] = self.b[self.p + i];
            i += 1;
        }
        self.p += n;
        Ok(())
    }
}
impl<const N: usize> Write for Mem<N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.write_all(buf)?;
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let n = buf.len();
        assert!(n <= N && self.p <= N - n, "write past the end of the image");
        let mut i = 0;
        while i < n {
            self.b[self.p + i] = buf[i];
            i += 1;
        }
        self.p += n;
        Ok(())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl<const N: usize> Seek for Mem<N> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.p = match s {
            SeekFrom::Start(x) => x as usize,
            SeekFrom::Current(d) => (self.p as i64 + d) as usize,
            SeekFrom::End(d) => (N as i64 + d) as usize,
        };
        Ok(self.p as u64)
    }
    fn stream_position(&mut self) -> Result<u64> {
        Ok(self.p as u64)
    }
}

/// Copy byte by byte, so that constants stay visible to the symbolic executor.
pub fn put(d: &mut [u8], o: usize, s: &[u8]) {
    let mut i = 0;
    while i < s.len() {
        d[o + i] = s[i];
        i += 1;
    }
}
