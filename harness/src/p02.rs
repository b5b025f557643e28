//! P02: bit readers deliver the bits of their input in order.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::bits::{Be32, Jpeg, Le32};
use std::io::Cursor;

/// `n` bits at bit `p` of a big endian bit string, 0 past its end.
fn field(d: &[u8], p: usize, n: usize) -> u16 {
    let mut v = 0u32;
    let mut k = 0;
    while k < 3 {
        let b = p / 8 + k;
        v = (v << 8) | if b < d.len() { d[b] as u32 } else { 0 };
        k += 1;
    }
    ((v >> (24 - n - p % 8)) & ((1u32 << n) - 1)) as u16
}

fn nbits() -> usize {
    let n: u8 = any();
    assume(n >= 1 && n <= 16);
    n as usize
}

proofs! {
    #[kani::unwind(20)]
    fn p02_be32() {
        let d: [u8; 12] = any();
        let mut r = Be32::new(&d[..]);
        let mut p = 0;
        let mut i = 0;
        while i < 5 {
            let n = nbits();
            assert!(ok(r.get_bits(n as u8)) == field(&d, p, n), "get");
            p += n;
            i += 1;
        }
        cover!(p > 64);
    }

    #[kani::unwind(20)]
    fn p02_le32() {
        let d: [u8; 12] = any();
        // Words are little endian, bits go from the most significant.
        let mut s = [0u8; 12];
        let mut i = 0;
        while i < 12 {
            s[i] = d[i / 4 * 4 + 3 - i % 4];
            i += 1;
        }
        let mut v = Vec::with_capacity(12);
        v.extend_from_slice(&d);
        let mut r = Le32::new(Cursor::new(v));
        let mut p = 0;
        let mut i = 0;
        while i < 5 {
            let n = nbits();
            assert!(ok(r.peek(n as u8)) == field(&s, p, n), "peek");
            assert!(ok(r.get_bits(n as u8)) == field(&s, p, n), "get");
            p += n;
            i += 1;
        }
        cover!(p > 64);
    }

    /// At the end of the data there is an error, and it stays one.
    #[kani::unwind(20)]
    fn p02_be32_end() {
        let d: [u8; 4] = any();
        let mut r = Be32::new(&d[..]);
        let mut p = 0;
        let mut errors = 0;
        let mut i = 0;
        while i < 4 {
            let n = nbits();
            let got = r.get_bits(n as u8);
            if p + n <= 32 {
                assert!(ok(got) == field(&d, p, n), "bits left");
                p += n;
            } else {
                assert!(is_err(got), "no bits left");
                errors += 1;
            }
            i += 1;
        }
        cover!(errors == 2 && p == 30);
    }

    #[kani::unwind(20)]
    fn p02_le32_end() {
        let d: [u8; 4] = any();
        let mut v = Vec::with_capacity(4);
        v.extend_from_slice(&d);
        let mut r = Le32::new(Cursor::new(v));
        let mut p = 0;
        let mut i = 0;
        while i < 4 {
            let n = nbits();
            let got = r.get_bits(n as u8);
            if p + n <= 32 {
                ok(got);
                p += n;
            } else {
                assert!(is_err(got), "no bits left");
            }
            i += 1;
        }
        cover!(p == 30);
    }

    /// More than 16 bits can't be requested, and consumes nothing.
    #[kani::unwind(20)]
    fn p02_too_many() {
        let n: u8 = any();
        assume(n > 16);
        let d: [u8; 8] = any();
        let mut r = Be32::new(&d[..]);
        assert!(is_err(r.get_bits(n)));
        assert!(ok(r.get_bits(8)) == d[0] as u16);
        cover!(n == 17);
    }

    /// The leading zeros of any 64 bits with a one early enough.
    #[kani::unwind(20)]
    fn p02_zerobits() {
        let v: u64 = any();
        let skip: u8 = any();
        assume(skip <= 16);
        assume((v << skip).leading_zeros() <= 31 && v << skip != 0);
        let d = v.to_be_bytes();
        let mut r = Be32::new(&d[..]);
        if skip > 0 {
            ok(r.get_bits(skip));
        }
        let n = r.consume_zerobits();
        assert!(n == (v << skip).leading_zeros(), "zero count");
        assert!(ok(r.get_bits(1)) == 1, "stops at the one");
        cover!(n == 31 && skip == 1);
        cover!(n == 15);
        cover!(n == 0);
    }

    #[kani::unwind(8)]
    fn p02_too_many_jpeg() {
        let n: u8 = any();
        assume(n > 16);
        let d = [1, 2, 3, 4];
        let mut r = Jpeg::new(&d);
        assert!(is_err(r.get_bits(n)));
        cover!(n == 17);
    }

    /// JPEG: a 0 stuffed after 0xff is dropped.
    #[kani::unwind(8)]
    fn p02_jpeg_stuffing() {
        let d: [u8; 6] = any();
        let mut s = [0u8; 6];
        let mut n = 0;
        let mut i = 0;
        while i < 6 {
            s[n] = d[i];
            if i == 0 || d[i - 1] != 0xff {
                n += 1;
            } else {
                assume(d[i] == 0);
            }
            i += 1;
        }
        assume(d[5] != 0xff);
        let mut r = Jpeg::new(&d[..]);
        let mut p = 0;
        let mut i = 0;
        while i < 3 {
            let k = nbits();
            let v = r.get_bits(k as u8);
            if p + k <= n * 8 {
                assert!(ok(v) == field(&s[..n], p, k), "get");
                p += k;
            } else {
                assert!(is_err(v), "no bits left");
            }
            i += 1;
        }
        cover!(n == 4 && p > 28);
        cover!(n == 6 && p == 48);
    }

    /// JPEG: at a marker the data reads as zeros.
    #[kani::unwind(8)]
    fn p02_jpeg_marker() {
        let a: [u8; 3] = any();
        let m: u8 = any();
        assume(m != 0 && a[0] != 0xff && a[1] != 0xff && a[2] != 0xff);
        let d = [a[0], a[1], a[2], 0xff, m, 0x55];
        let mut r = Jpeg::new(&d[..]);
        let mut p = 0;
        let mut i = 0;
        while i < 3 {
            let k = nbits();
            assert!(ok(r.get_bits(k as u8)) == field(&a, p, k), "get");
            p += k;
            i += 1;
        }
        cover!(p == 48);
        cover!(p == 20);
    }
}
