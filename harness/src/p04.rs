//! P04: Huffman tables of lossless JPEG.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::ljpeg::Table;

/// The canonical code of ITU T.81 annex C: (value, length) of the code that
/// starts `word`.
fn reference(bits: &[u8], values: &[u8], word: u32) -> Option<(u8, u32)> {
    let mut code = 0u32;
    let mut k = 0;
    let mut l = 1;
    while l < bits.len() {
        let mut n = 0;
        while n < bits[l] {
            if word >> (32 - l as u32) == code {
                return Some((values[k], l as u32));
            }
            code += 1;
            k += 1;
            n += 1;
        }
        code <<= 1;
        l += 1;
    }
    None
}

fn table<const N: usize, const V: usize>(bits: [u8; N]) {
    let values: [u8; V] = any();
    let t = ok(Table::new(&bits, &values));
    let d: [u8; 4] = any();
    let word = (d[0] as u32) << 24 | (d[1] as u32) << 16 | (d[2] as u32) << 8 | d[3] as u32;
    let r = reference(&bits, &values, word);
    let got = t.decode(&d);
    if let Some((value, len)) = r {
        let (v, next) = ok(got);
        assert!(v == value as u16, "value");
        assert!(next as u32 == (word << len) >> 24, "length");
    } else {
        // Not a code. It's decoded to something.
        std::mem::forget(got);
    }
    cover!(r.is_some_and(|r| r.1 > 1 || N == 2));
}

/// More codes than there are of these lengths.
fn over<const N: usize>(bits: [u8; N]) {
    assert!(is_err(Table::new(&bits, &[1, 2, 3, 4])));
    cover!();
}

proofs! {
    #[kani::unwind(258)]
    fn p04_one() { table::<2, 1>([0, 1]) }
    #[kani::unwind(258)]
    fn p04_short() { table::<5, 4>([0, 0, 3, 1, 0]) }
    #[kani::unwind(258)]
    fn p04_eight() { table::<9, 6>([0, 1, 0, 1, 1, 0, 0, 0, 3]) }
    #[kani::unwind(258)]
    fn p04_nine() { table::<11, 5>([0, 1, 0, 1, 0, 0, 0, 0, 1, 1, 1]) }
    #[kani::unwind(258)]
    fn p04_long() { table::<17, 4>([0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 2]) }
    #[kani::unwind(258)]
    fn p04_only_long() { table::<15, 5>([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 3]) }
    #[kani::unwind(258)]
    fn p04_full() { table::<17, 17>([0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) }
    #[kani::unwind(258)]
    fn p04_over_one() { over([0, 3]) }
    #[kani::unwind(258)]
    fn p04_over_two() { over([0, 1, 3]) }
    #[kani::unwind(258)]
    fn p04_over_three() { over([0, 1, 1, 0, 0, 9]) }
}
