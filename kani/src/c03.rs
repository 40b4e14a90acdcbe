//! C03: the XOR stream is a position-wise cipher, whatever the chunking, short transfers and seeks.
use rekordcrate::verif::XorStream;
use std::io::{ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// Inner stream over an unbounded file: content is chosen by the solver, transfers may be short,
/// transfers may fail; it records the bytes it handed out or was given by each transfer.
struct Inner<const B: usize> {
    pos: u64,
    data: [[u8; B]; 2],
    len: [usize; 2],
    op: usize,
    fail: bool,
}
impl<const B: usize> Inner<B> {
    fn at(pos: u64) -> Self {
        Inner { pos, data: kani::any(), len: [0; 2], op: 0, fail: false }
    }
    fn transfer(&mut self, want: usize) -> Result<usize> {
        if self.fail {
            self.fail = false;
            return Err(ErrorKind::Interrupted.into());
        }
        let n: usize = kani::any();
        kani::assume(n <= want && n <= B);
        self.len[self.op] = n;
        self.pos += n as u64;
        Ok(n)
    }
}
impl<const B: usize> Read for Inner<B> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = self.transfer(buf.len())?;
        let mut i = 0;
        while i < B {
            if i < n {
                buf[i] = self.data[self.op][i];
            }
            i += 1;
        }
        self.op += 1;
        Ok(n)
    }
}
impl<const B: usize> Write for Inner<B> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = self.transfer(buf.len())?;
        let mut i = 0;
        while i < B {
            if i < n {
                self.data[self.op][i] = buf[i];
            }
            i += 1;
        }
        self.op += 1;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl<const B: usize> Seek for Inner<B> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        match s {
            SeekFrom::Start(x) => self.pos = x,
            SeekFrom::Current(d) => self.pos = self.pos.wrapping_add(d as u64),
            SeekFrom::End(d) => self.pos = END.wrapping_add(d as u64),
        }
        Ok(self.pos)
    }
    fn stream_position(&mut self) -> Result<u64> {
        Ok(self.pos)
    }
}

const END: u64 = 1000;

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Read,
    Write,
    FailedRead,
    FailedWrite,
    SeekCurrent,
    SeekEnd,
    None,
}

fn key_byte<const K: usize>(key: &[u8; K], pos: u64, origin: u64) -> u8 {
    if K == 0 {
        return 0;
    }
    // the remainder, stated by its defining equation: pos - origin == K * q + r, 0 <= r < K
    let q: i64 = kani::any();
    let r: i64 = kani::any();
    kani::assume(q > -(1 << 40) && q < 1 << 40 && r >= 0 && r < K as i64);
    kani::assume(pos as i64 - origin as i64 == K as i64 * q + r);
    key[r as usize]
}

/// One step of the induction over histories. The state is "created at `origin`, positioned at an
/// arbitrary `at`"; `op` is carried out, and a one-byte probe transfer observes the state it leaves.
fn step<const K: usize, const B: usize, const LIM: u64>(fresh: bool, op: Op, probe: Op) {
    let key: [u8; K] = kani::any();
    let origin: u64 = kani::any();
    kani::assume(origin < LIM);
    let mut inner = Inner::<B>::at(origin);
    let mut keyv = Vec::with_capacity(K);
    let mut i = 0;
    while i < K {
        keyv.push(key[i]);
        i += 1;
    }
    inner.fail = matches!(op, Op::FailedRead | Op::FailedWrite);
    let mut x = XorStream::with_key(&mut inner, keyv);
    let mut at = origin;
    if matches!(op, Op::SeekCurrent | Op::SeekEnd) {
        // an arbitrary phase, reached by a (short) read
        let mut warm = [0u8; B];
        at += x.read(&mut warm).unwrap() as u64;
    } else if !fresh {
        at = kani::any();
        kani::assume(at < LIM);
        let r = x.seek(SeekFrom::Start(at));
        assert!(matches!(r, Ok(p) if p == at), "seek reports the new position");
        core::mem::forget(r);
    }

    let given: [u8; B] = kani::any();
    let mut buf = given;
    let n: usize = kani::any();
    kani::assume(n <= B);
    let mut moved = 0usize;
    let mut here = at;
    match op {
        Op::Read => {
            moved = x.read(&mut buf[..n]).unwrap();
        }
        Op::Write => {
            moved = x.write(&buf[..n]).unwrap();
        }
        Op::FailedRead => {
            let r = x.read(&mut buf[..n]);
            assert!(r.is_err());
            core::mem::forget(r);
        }
        Op::FailedWrite => {
            let r = x.write(&buf[..n]);
            assert!(r.is_err());
            core::mem::forget(r);
        }
        Op::SeekCurrent => {
            let d: i64 = kani::any();
            kani::assume(d > -(LIM as i64) && d < LIM as i64 && d + at as i64 >= 0);
            here = (at as i64 + d) as u64;
            let r = x.seek(SeekFrom::Current(d));
            assert!(matches!(r, Ok(p) if p == here), "seek reports the new position");
            core::mem::forget(r);
        }
        Op::SeekEnd => {
            let d: i64 = kani::any();
            kani::assume(d >= -(END as i64) && d < LIM as i64);
            here = (END as i64 + d) as u64;
            let r = x.seek(SeekFrom::End(d));
            assert!(matches!(r, Ok(p) if p == here), "seek reports the new position");
            core::mem::forget(r);
        }
        Op::None => {}
    }
    here += moved as u64;
    let mut pbuf = [kani::any::<u8>()];
    let pgiven = pbuf[0];
    let pmoved = match probe {
        Op::Write => x.write(&pbuf).unwrap(),
        _ => x.read(&mut pbuf).unwrap(),
    };
    drop(x);

    let mut o = 0;
    match op {
        Op::Read | Op::Write => {
            assert!(moved == inner.len[0], "the number of bytes reported is the number transferred");
            let mut i = 0;
            while i < B {
                if i < moved {
                    let k = key_byte(&key, at + i as u64, origin);
                    if op == Op::Read {
                        assert!(buf[i] == inner.data[0][i] ^ k, "read byte is decrypted with its position's key byte");
                    } else {
                        assert!(inner.data[0][i] == given[i] ^ k, "written byte is encrypted with its position's key byte");
                    }
                }
                i += 1;
            }
            o = 1;
        }
        Op::SeekCurrent | Op::SeekEnd => o = 1,
        _ => {}
    }
    let transfer = matches!(op, Op::Read | Op::Write);
    kani::cover!(!transfer || moved == B, "full transfer");
    kani::cover!(!transfer || moved < n, "short transfer");
    if pmoved == 1 {
        let k = key_byte(&key, here, origin);
        match probe {
            Op::Write => assert!(inner.data[o][0] == pgiven ^ k, "the next written byte uses its position's key byte"),
            _ => assert!(pbuf[0] == inner.data[o][0] ^ k, "the next read byte uses its position's key byte"),
        }
        kani::cover!(true);
    }
    assert!(inner.pos == here + pmoved as u64, "the inner stream moved by what was transferred");
}


//@ {"h":"c03::read_then_read","tier":"quick","bound":"key of 3 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::read"],"claim":"a (short) read decrypts position-wise and leaves the key in step"}
#[kani::proof]
#[kani::unwind(8)]
fn read_then_read() {
    step::<3, 3, 64>(false, Op::Read, Op::Read);
}

//@ {"h":"c03::read_then_write","tier":"quick","bound":"key of 3 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::read"],"claim":"a (short) read leaves the key in step for a write"}
#[kani::proof]
#[kani::unwind(8)]
fn read_then_write() {
    step::<3, 3, 64>(false, Op::Read, Op::Write);
}

//@ {"h":"c03::write_then_write","tier":"quick","bound":"key of 3 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::write"],"claim":"a (short) write encrypts position-wise and leaves the key in step"}
#[kani::proof]
#[kani::unwind(8)]
fn write_then_write() {
    step::<3, 3, 64>(false, Op::Write, Op::Write);
}

//@ {"h":"c03::write_then_read","tier":"quick","bound":"key of 3 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::write"],"claim":"a (short) write leaves the key in step for a read"}
#[kani::proof]
#[kani::unwind(8)]
fn write_then_read() {
    step::<3, 3, 64>(false, Op::Write, Op::Read);
}

//@ {"h":"c03::fresh_read","tier":"quick","bound":"key of 3 bytes, one transfer of at most 4 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::read"],"claim":"a new stream starts at key byte 0"}
#[kani::proof]
#[kani::unwind(8)]
fn fresh_read() {
    step::<3, 4, 64>(true, Op::Read, Op::Read);
}

//@ {"h":"c03::fresh_write","tier":"quick","bound":"key of 3 bytes, one transfer of at most 4 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::write"],"claim":"a new stream starts at key byte 0"}
#[kani::proof]
#[kani::unwind(8)]
fn fresh_write() {
    step::<3, 4, 64>(true, Op::Write, Op::Write);
}

//@ {"h":"c03::failed_read","tier":"quick","bound":"key of 2 bytes, one transfer of at most 2 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::read"],"claim":"a failed read does not move the key"}
#[kani::proof]
#[kani::unwind(8)]
fn failed_read() {
    step::<2, 2, 64>(false, Op::FailedRead, Op::Read);
}

//@ {"h":"c03::failed_write","tier":"quick","bound":"key of 2 bytes, one transfer of at most 2 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::write"],"claim":"a failed write does not move the key"}
#[kani::proof]
#[kani::unwind(8)]
fn failed_write() {
    step::<2, 2, 64>(false, Op::FailedWrite, Op::Write);
}

//@ {"h":"c03::seek_current","tier":"quick","bound":"key of 3 bytes, one transfer of at most 1 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::seek"],"claim":"a relative seek moves the key by the same distance"}
#[kani::proof]
#[kani::unwind(8)]
fn seek_current() {
    step::<3, 3, 0x100000>(false, Op::SeekCurrent, Op::Read);
}

//@ {"h":"c03::seek_end","tier":"quick","bound":"key of 3 bytes, one transfer of at most 1 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::seek"],"claim":"a seek from the end moves the key by the same distance"}
#[kani::proof]
#[kani::unwind(8)]
fn seek_end() {
    step::<3, 3, 0x100000>(false, Op::SeekEnd, Op::Read);
}

//@ {"h":"c03::empty_key","tier":"quick","bound":"key of 0 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::read"],"claim":"an empty key leaves the data unchanged"}
#[kani::proof]
#[kani::unwind(8)]
fn empty_key() {
    step::<0, 3, 64>(false, Op::Read, Op::Write);
}

//@ {"h":"c03::key1","tier":"thorough","bound":"key of 1 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::write"],"claim":"one-byte key"}
#[kani::proof]
#[kani::unwind(8)]
fn key1() {
    step::<1, 3, 64>(false, Op::Write, Op::Read);
}

//@ {"h":"c03::key19_read","tier":"thorough","bound":"key of 19 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::read"],"claim":"a key of the length the song-structure cipher uses"}
#[kani::proof]
#[kani::unwind(24)]
fn key19_read() {
    step::<19, 3, 64>(false, Op::Read, Op::Read);
}

//@ {"h":"c03::key19_write","tier":"thorough","bound":"key of 19 bytes, one transfer of at most 3 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::write"],"claim":"a key of the length the song-structure cipher uses"}
#[kani::proof]
#[kani::unwind(24)]
fn key19_write() {
    step::<19, 3, 64>(false, Op::Write, Op::Write);
}

//@ {"h":"c03::long_read","tier":"thorough","bound":"key of 3 bytes, one transfer of at most 8 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::read"],"claim":"longer transfers"}
#[kani::proof]
#[kani::unwind(12)]
fn long_read() {
    step::<3, 8, 64>(false, Op::Read, Op::Read);
}

//@ {"h":"c03::long_write","tier":"thorough","bound":"key of 3 bytes, one transfer of at most 8 bytes; all positions, origins and key/data bytes; histories of any length by induction on the key phase","fns":["xor::XorStream::with_key","xor::XorStream::write"],"claim":"longer transfers"}
#[kani::proof]
#[kani::unwind(12)]
fn long_write() {
    step::<3, 8, 64>(false, Op::Write, Op::Write);
}
