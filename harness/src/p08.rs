//! P08: Nikon compressed samples.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::nikon::{Diffs, Samples};

/// A code: its bits, how many, and how many value bits follow.
type Code = (u16, usize, usize);

const LOSSY_12: [Code; 14] = [
    (0b00, 2, 5),
    (0b010, 3, 4),
    (0b011, 3, 3),
    (0b100, 3, 6),
    (0b101, 3, 2),
    (0b110, 3, 7),
    (0b1110, 4, 1),
    (0b11110, 5, 0),
    (0b111110, 6, 8),
    (0b1111110, 7, 9),
    (0b11111110, 8, 11),
    (0b111111110, 9, 10),
    (0b1111111110, 10, 12),
    (0b1111111111, 10, 0),
];
const LOSSY_14: [Code; 15] = [
    (0b00, 2, 5),
    (0b010, 3, 6),
    (0b011, 3, 4),
    (0b100, 3, 7),
    (0b101, 3, 8),
    (0b1100, 4, 3),
    (0b1101, 4, 9),
    (0b11100, 5, 2),
    (0b11101, 5, 1),
    (0b111100, 6, 0),
    (0b111101, 6, 10),
    (0b111110, 6, 11),
    (0b1111110, 7, 12),
    (0b11111110, 8, 13),
    (0b11111111, 8, 14),
];
const LOSSLESS_14: [Code; 15] = [
    (0b00, 2, 7),
    (0b010, 3, 6),
    (0b011, 3, 8),
    (0b100, 3, 5),
    (0b101, 3, 9),
    (0b1100, 4, 4),
    (0b1101, 4, 10),
    (0b11100, 5, 3),
    (0b11101, 5, 11),
    (0b111100, 6, 12),
    (0b111101, 6, 2),
    (0b111110, 6, 0),
    (0b1111110, 7, 1),
    (0b11111110, 8, 13),
    (0b11111111, 8, 14),
];

/// (`to_be_bytes` isn't a constant to the solver.)
fn bytes(w: u32) -> [u8; 4] {
    [(w >> 24) as u8, (w >> 16) as u8, (w >> 8) as u8, w as u8]
}

/// The difference that `n` bits stand for.
fn extend(v: i32, n: usize) -> i32 {
    if n == 0 {
        0
    } else if v >> (n - 1) == 0 {
        v - (1 << n) + 1
    } else {
        v
    }
}

/// Each code, followed by any bits.
fn diffs<const N: usize>(table: &[Code; N], get: impl Fn(&[u8]) -> i32) {
    let rest: u32 = any();
    let mut i = 0;
    while i < N {
        let (code, len, n) = table[i];
        // The code, then anything.
        let word = ((code as u32) << (32 - len)) | (rest >> len);
        let d = word.to_be_bytes();
        let v = if n == 0 { 0 } else { (word << len) >> (32 - n) };
        let got = get(&d);
        assert!(got == extend(v as i32, n), "difference");
        i += 1;
    }
    cover!(rest > 1);
}

/// One code, and a stream of as many bytes as the code and its value need, or
/// one less.
fn ends<const N: usize>(table: &[Code; N], get: impl Fn(&[u8]) -> bool) {
    let mut i = 0;
    while i < N {
        let (code, len, n) = table[i];
        let word = (code as u32) << (32 - len);
        let d = bytes(word);
        let need = (len + n + 7) / 8;
        assert!(!get(&d[..need]), "enough data");
        assert!(get(&d[..need - 1]), "not enough data");
        i += 1;
    }
    cover!();
}

/// A table with a code of no bits: differences of 3 bits.
const PLAIN: [(bool, u32); 1] = [(true, 3)];

fn samples(columns: usize, rows: usize) {
    let init: [[u16; 2]; 2] = any();
    let d: [u8; 5] = any();
    let mut it = Samples::new(Diffs::with_table(&PLAIN, &d), columns, init);
    let mut bits = u64::from_be_bytes([d[0], d[1], d[2], d[3], d[4], 0, 0, 0]);
    let mut out = [[0u16; 6]; 4];
    let mut row = 0;
    while row < rows {
        let mut col = 0;
        while col < columns {
            let pred = if col >= 2 {
                out[row][col - 2]
            } else if row >= 2 {
                out[row - 2][col]
            } else {
                init[row][col]
            };
            let diff = extend((bits >> 61) as i32, 3);
            bits <<= 3;
            out[row][col] = pred.wrapping_add(diff as u16);
            assert!(ok(it.get()) == out[row][col], "sample");
            col += 1;
        }
        row += 1;
    }
    cover!(out[0][1] != init[0][1]);
}

/// What large differences do: the sum is modulo 2^16.
fn sums() {
    let init: [[u16; 2]; 2] = any();
    let rest: u16 = any();
    // 1111 1111: 14 bits follow.
    let b = rest.to_be_bytes();
    let d = [0xff, b[0], b[1]];
    let v = extend((rest >> 2) as i32, 14);
    let mut it = Samples::new(Diffs::lossless14(&d), 2, init);
    assert!(ok(it.get()) == (init[0][0] as i32 + v) as u16, "sum");
    cover!(init[0][0] as i32 + v < 0);
    cover!(init[0][0] as i32 + v > 65535);
}

proofs! {
    #[kani::unwind(18)]
    fn p08_lossy12() { diffs(&LOSSY_12, |d| ok(Diffs::lossy12(d).get())) }
    #[kani::unwind(18)]
    fn p08_lossy14() { diffs(&LOSSY_14, |d| ok(Diffs::lossy14(d).get())) }
    #[kani::unwind(18)]
    fn p08_lossless14() { diffs(&LOSSLESS_14, |d| ok(Diffs::lossless14(d).get())) }
    #[kani::unwind(18)]
    fn p08_lossy12_end() { ends(&LOSSY_12, |d| is_err(Diffs::lossy12(d).get())) }
    #[kani::unwind(18)]
    fn p08_lossy14_end() { ends(&LOSSY_14, |d| is_err(Diffs::lossy14(d).get())) }
    #[kani::unwind(18)]
    fn p08_lossless14_end() { ends(&LOSSLESS_14, |d| is_err(Diffs::lossless14(d).get())) }
    #[kani::unwind(7)]
    fn p08_samples_2() { samples(2, 4) }
    #[kani::unwind(7)]
    fn p08_samples_3() { samples(3, 3) }
    #[kani::unwind(7)]
    fn p08_samples_5() { samples(5, 1) }
    #[kani::unwind(18)]
    fn p08_sums() { sums() }
}
