//! P09: Olympus samples.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::olympus::{big_endian, decode_12be, decode_interlaced, decompress};

/// Groups of 8 samples from 12 bytes, as big endian words of 32 bits swapped.
fn packed<const N: usize>(w: usize, h: usize) {
    let d: [u8; N] = any();
    let out = decode_12be(&d, w, h);
    assert!(out.len() == w * h, "samples");
    // The bytes of each word in the other order, then plain 12 bits samples.
    let byte = |i: usize| d[i / 4 * 4 + 3 - i % 4] as u16;
    let mut i = 0;
    while i < w * h {
        let o = i / 2 * 3;
        let complete = (i / 8 + 1) * 12 <= N && (i / 8 + 1) * 8 <= w * h;
        if complete {
            let want = if i % 2 == 0 { byte(o) << 4 | byte(o + 1) >> 4 } else { (byte(o + 1) & 15) << 8 | byte(o + 2) };
            assert!(out[i] == want, "sample");
        }
        i += 1;
    }
    cover!(w * h == 0 || out[0] == 0x123 || w * h < 8 || N < 12);
}

/// The even rows are first, the odd ones start at the multiple of 2048 bytes
/// after them. `N` bytes are known of each.
fn interlaced<const N: usize, const L: usize>(w: usize, h: usize) {
    let a: [u8; N] = any();
    let b: [u8; N] = any();
    let mut buf = [0u8; L];
    let n = if L < N { L } else { N };
    buf[..n].copy_from_slice(&a[..n]);
    let second = if L > 2048 { L - 2048 } else { 0 };
    let second = if second < N { second } else { N };
    if second > 0 {
        buf[2048..2048 + second].copy_from_slice(&b[..second]);
    }
    let out = decode_interlaced(&buf, w, h);
    assert!(out.len() == w * h, "samples");
    let mut i = 0;
    while i < w * h {
        let (row, col) = (i / w, i % w);
        let (f, len) = if row % 2 == 0 { (&a, n) } else { (&b, second) };
        let o = (row / 2 * w + col / 2 * 2) / 2 * 3;
        if o + 3 <= len && w % 2 == 0 {
            let (b0, b1, b2) = (f[o] as u16, f[o + 1] as u16, f[o + 2] as u16);
            let want = if col % 2 == 0 { b0 << 4 | b1 >> 4 } else { (b1 & 15) << 8 | b2 };
            assert!(out[i] == want, "sample");
        }
        i += 1;
    }
    cover!(out[w * h - 1] == 0x123 || second < N || w % 2 == 1);
}

/// The cells of the table of leading zeros that the model needs.
fn known(_cells: [usize; 12]) {
    #[cfg(kani)]
    unsafe {
        libopenraw::verif::bits128::CELLS = _cells;
    }
}

struct Bits(u128);

impl Bits {
    fn take(&mut self, n: u32) -> i32 {
        if n == 0 {
            return 0;
        }
        let v = (self.0 >> (128 - n)) as i32;
        self.0 <<= n;
        v
    }
}

/// After dcraw's olympus_load_raw. The bits past the end are zeros, the image
/// is only specified with samples of 12 bits and with enough data.
fn compressed<const N: usize, const S: usize>(w: usize, h: usize, near: bool) {
    let d: [u8; N] = any();
    let mut word = 0u128;
    let mut i = 7;
    while i < N {
        word |= (d[i] as u128) << (120 - 8 * (i - 7));
        i += 1;
    }
    let mut b = Bits(word);
    let mut left = (N as i32 - 7) * 8;
    let mut want = [0i32; S];
    let mut valid = true;
    let mut cells = [0usize; 12];
    let mut row = 0;
    while row < h {
        let mut carry = [[0i32; 3]; 2];
        let mut col = 0;
        while col < w {
            let c = &mut carry[col & 1];
            let i = if c[2] < 3 { 2 } else { 0 };
            // The bits of the last value past `i`, at least 2 + `i`.
            let mut bits = 0u32;
            while bits < 16 && (c[0] >> bits) != 0 {
                bits += 1;
            }
            let mut nbits = 2 + i;
            if bits > nbits + i {
                nbits = bits - i;
            }
            if nbits + i > 16 {
                nbits = 16 - i;
            }
            cells[row * w + col] = (b.0 >> 113) as usize & 4095;
            let sign = b.take(1);
            let low = b.take(2);
            left -= 3;
            let mut high = (b.0 >> 116) as u16;
            let zeros = (high << 4 | 15).leading_zeros();
            if zeros == 12 {
                b.take(12);
                left -= 12;
                high = (b.take(16 - nbits) >> 1) as u16;
                left -= 16 - nbits as i32;
            } else {
                b.take(zeros + 1);
                left -= zeros as i32 + 1;
                high = zeros as u16;
            }
            if near {
                // The small values only.
                assume(high == 0);
            }
            c[0] = (high as i32) << nbits | b.take(nbits);
            left -= nbits as i32;
            let diff = if sign == 1 { -c[0] - 1 } else { c[0] } + c[1];
            c[1] = (diff * 3 + c[1]) >> 5;
            c[2] = if c[0] > 16 { 0 } else { c[2] + 1 };
            let at = |r: usize, c: usize| want[r * w + c];
            let pred = if row < 2 && col < 2 {
                0
            } else if row < 2 {
                at(row, col - 2)
            } else if col < 2 {
                at(row - 2, col)
            } else {
                let (we, n, nw) = (at(row, col - 2), at(row - 2, col), at(row - 2, col - 2));
                if (we < nw && nw < n) || (n < nw && nw < we) {
                    if (we - nw).abs() > 32 || (n - nw).abs() > 32 {
                        we + n - nw
                    } else {
                        (we + n) >> 1
                    }
                } else if (we - nw).abs() > (n - nw).abs() {
                    we
                } else {
                    n
                }
            };
            let v = pred + diff * 4 + low;
            want[row * w + col] = v;
            valid = valid && v >= 0 && v < 4096;
            col += 1;
        }
        row += 1;
    }
    known(cells);
    let mut good = false;
    match decompress(&d, w, h) {
        Ok(out) => {
            assert!(out.len() == w * h, "samples");
            if valid && left >= 0 {
                let mut i = 0;
                while i < w * h {
                    assert!(out[i] == want[i] as u16, "sample");
                    i += 1;
                }
            }
            good = valid && left >= 0 && out[w * h - 1] != 0;
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(left < 0, "enough data");
        }
    }
    cover!(good || N == 8);
}

proofs! {
    #[kani::unwind(20)]
    fn p09_packed_8() { packed::<12>(4, 2) }
    #[kani::unwind(20)]
    fn p09_packed_16() { packed::<24>(8, 2) }
    /// Sizes that aren't whole groups.
    #[kani::unwind(20)]
    fn p09_packed_odd() { packed::<9>(3, 2) }
    #[kani::unwind(20)]
    fn p09_packed_short() { packed::<24>(5, 2) }
    #[kani::unwind(20)]
    fn p09_packed_more_rows() { packed::<12>(4, 4) }

    #[kani::unwind(20)]
    fn p09_interlaced_2() { interlaced::<6, 2060>(4, 2) }
    #[kani::unwind(20)]
    fn p09_interlaced_3() { interlaced::<12, 2060>(4, 3) }
    #[kani::unwind(20)]
    fn p09_interlaced_4() { interlaced::<12, 2060>(2, 5) }
    /// Without the odd rows, or only some.
    #[kani::unwind(20)]
    fn p09_interlaced_short() { interlaced::<9, 2053>(4, 3) }
    #[kani::unwind(20)]
    fn p09_interlaced_none() { interlaced::<12, 12>(4, 2) }
    #[kani::unwind(20)]
    fn p09_interlaced_odd() { interlaced::<9, 2060>(3, 2) }

    #[kani::unwind(18)]
    fn p09_one() { compressed::<14, 2>(2, 1, false) }
    #[kani::unwind(18)]
    fn p09_row() { compressed::<17, 4>(4, 1, false) }
    #[kani::unwind(18)]
    fn p09_long_row() { compressed::<20, 8>(8, 1, true) }
    #[kani::unwind(18)]
    fn p09_column() { compressed::<14, 6>(2, 3, true) }
    #[kani::unwind(18)]
    fn p09_plane() { compressed::<22, 12>(4, 3, true) }
    #[kani::unwind(18)]
    fn p09_cut() { compressed::<8, 2>(2, 1, false) }

    /// The header says the byte order.
    #[kani::unwind(8)]
    fn p09_magic() {
        let d: [u8; 4] = any();
        let n = upto(4);
        let letter = |b: u8| b == b'O' || b == b'S';
        let want = if n < 4 {
            None
        } else if d[0] == b'I' && d[1] == b'I' && d[2] == b'R' && letter(d[3]) {
            Some(false)
        } else if d[0] == b'M' && d[1] == b'M' && letter(d[2]) && d[3] == b'R' {
            Some(true)
        } else {
            None
        };
        let got = big_endian(&d[..n]);
        assert!(got == want, "byte order");
        cover!(got == Some(true));
        cover!(got == Some(false) && d[3] == b'S');
    }
}
