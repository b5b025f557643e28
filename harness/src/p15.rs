//! P15: a window on a file reads that file, and nothing else.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::io::{Loader, ReadAndSeek, Window};
use std::io::SeekFrom;

const N: usize = 12;

impl ReadAndSeek for Mem<N> {}
impl ReadAndSeek for Mem<5> {}

fn data() -> ([u8; N], Box<dyn ReadAndSeek>) {
    let d: [u8; N] = any();
    (d, Box::new(Mem::new(d)))
}

proofs! {
    /// From any offset, a window covers the rest of the file. Positions are
    /// relative to it.
    #[kani::unwind(16)]
    fn p15_window() {
        let (d, v) = data();
        let offset: u64 = any();
        let w = Window::new(v, N as u64, offset);
        match w {
            Err(e) => {
                std::mem::forget(e);
                assert!(offset > N as u64, "refused");
            }
            Ok(mut w) => {
                assert!(offset <= N as u64, "accepted");
                assert!(w.length() == N as u64 - offset, "length");
                let p: u64 = any();
                match w.seek(SeekFrom::Start(p)) {
                    Err(e) => {
                        std::mem::forget(e);
                        assert!(p > w.length(), "seek refused");
                    }
                    Ok(r) => {
                        assert!(r == p && p <= w.length(), "seek accepted");
                        let mut b = [0u8; 1];
                        let n = ok(w.read(&mut b));
                        if p < w.length() {
                            assert!(n == 1 && b[0] == d[(offset + p) as usize], "read");
                        } else {
                            assert!(n == 0, "end");
                        }
                        cover!(n == 1 && offset == 5);
                    }
                }
            }
        }
    }

    /// The offset of a window made from another one is also from the start of
    /// the file.
    #[kani::unwind(16)]
    fn p15_subwindow() {
        let (d, v) = data();
        let first = upto(N) as u64;
        let w = ok(Window::new(v, N as u64, first));
        let offset: u64 = any();
        match w.sub(offset) {
            Err(e) => {
                std::mem::forget(e);
                assert!(offset > N as u64, "refused");
            }
            Ok(mut s) => {
                assert!(offset <= N as u64, "accepted");
                assert!(s.length() == N as u64 - offset, "length");
                let mut b = [0u8; 1];
                let n = ok(s.read(&mut b));
                assert!(if offset < N as u64 { n == 1 && b[0] == d[offset as usize] } else { n == 0 }, "read");
                cover!(n == 1 && offset == 5 && first == 7);
            }
        }
    }

    /// Relative seeks.
    #[kani::unwind(16)]
    fn p15_relative() {
        let (d, v) = data();
        let offset = upto(N) as u64;
        let mut w = ok(Window::new(v, N as u64, offset));
        let p = upto(N) as u64;
        assume(p <= w.length());
        ok(w.seek(SeekFrom::Start(p)));
        let from_end: bool = any();
        let m: i64 = any();
        assume(m >= -20 && m <= 20);
        let base = if from_end { w.length() as i64 } else { p as i64 };
        match w.seek(if from_end { SeekFrom::End(m) } else { SeekFrom::Current(m) }) {
            Ok(r) => {
                assert!(r as i64 == base + m, "position");
                if r < w.length() {
                    let mut b = [0u8; 1];
                    assert!(ok(w.read(&mut b)) == 1);
                    assert!(b[0] == d[(offset + r) as usize], "read");
                    cover!(m < 0 && offset > 0);
                }
            }
            Err(e) => {
                std::mem::forget(e);
                assert!(base + m < 0, "refused");
                cover!(base + m + offset as i64 >= 0);
            }
        }
    }

    /// Arrays of words follow the byte order.
    #[kani::unwind(16)]
    fn p15_words() {
        let (d, v) = data();
        let big: bool = any();
        let mut w = ok(Window::new(v, N as u64, 0));
        let mut a = [0u16; 2];
        ok(w.u16s(&mut a, big));
        let mut b = [0u32; 2];
        ok(w.u32s(&mut b, big));
        let mut i = 0;
        while i < 2 {
            let x = [d[i * 2], d[i * 2 + 1]];
            assert!(a[i] == if big { u16::from_be_bytes(x) } else { u16::from_le_bytes(x) }, "u16");
            let o = 4 + i * 4;
            let y = [d[o], d[o + 1], d[o + 2], d[o + 3]];
            assert!(b[i] == if big { u32::from_be_bytes(y) } else { u32::from_le_bytes(y) }, "u32");
            i += 1;
        }
        let mut a = [0u16; 2];
        assert!(is_err(w.u16s(&mut a, big)), "past the end");
        cover!(big && a[0] != a[1] || !big);
    }

    /// Bytes loaded are the file's, no more than asked.
    #[kani::unwind(7)]
    fn p15_load8() {
        let d: [u8; 5] = any();
        let l = ok(Loader::new(Box::new(Mem::new(d)), 5));
        let offset: u64 = any();
        let b = l.buffer8(offset, 3);
        let avail = if offset >= 5 { 0 } else { 5 - offset as usize };
        let n = if 3 < avail { 3 } else { avail };
        assert!(b.len() == n, "length");
        let mut i = 0;
        while i < 3 {
            if i < n {
                assert!(b[i] == d[offset as usize + i], "byte");
            }
            i += 1;
        }
        cover!(n == 3 && offset == 2);
        cover!(n == 1);
    }

    #[kani::unwind(7)]
    fn p15_load16() {
        let d: [u8; 5] = any();
        let l = ok(Loader::new(Box::new(Mem::new(d)), 5));
        let offset: u64 = any();
        let big: bool = any();
        let b = l.buffer16(offset, 4, big);
        assert!(b.len() == 2, "length");
        let mut i = 0;
        while i < 2 {
            if offset <= 1 {
                let o = offset as usize + i * 2;
                let x = [d[o], d[o + 1]];
                assert!(b[i] == if big { u16::from_be_bytes(x) } else { u16::from_le_bytes(x) }, "sample");
            } else if offset >= 5 {
                assert!(b[i] == 0, "nothing there");
            }
            i += 1;
        }
        cover!(big && offset == 1);
        cover!(offset > 5);
    }

    /// A thumbnail that goes past the end of the file is cut there.
    #[kani::unwind(7)]
    fn p15_thumbnail() {
        let d: [u8; 5] = any();
        let l = ok(Loader::new(Box::new(Mem::new(d)), 5));
        for (offset, len) in [(1, 3), (2, u64::MAX)] {
            let t = ok(l.thumbnail(offset, len));
            let avail = 5 - offset;
            let n = if len < avail { len } else { avail } as usize;
            let b = libopenraw::Bitmap::data8(&t).unwrap_or(&[]);
            assert!(b.len() == n, "length");
            let mut i = 0;
            while i < n {
                assert!(b[i] == d[offset as usize + i], "byte");
                i += 1;
            }
            std::mem::forget(t);
        }
        cover!();
    }

    #[kani::unwind(7)]
    fn p15_thumbnail_past_end() {
        let l = ok(Loader::new(Box::new(Mem::new([7u8; 5])), 5));
        let offset: u64 = any();
        assume(offset > 5);
        assert!(is_err(l.thumbnail(offset, 2)), "refused");
        cover!(offset == 6);
    }
}
