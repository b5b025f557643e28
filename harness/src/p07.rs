//! P07: Pentax compressed samples.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::pentax::decompress;

/// The difference that `n` bits stand for.
fn extend(v: u32, n: u32) -> i32 {
    if n == 0 {
        0
    } else if v >> (n - 1) == 0 {
        v as i32 - (1 << n) + 1
    } else {
        v as i32
    }
}

struct Bits(u64);

/// The table: 0 is 2 bits, 10 is 1 bit, 110 is none, 111 is 3 bits.
impl Bits {
    fn take(&mut self, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        let v = (self.0 >> (64 - n)) as u32;
        self.0 <<= n;
        v
    }
    fn diff(&mut self) -> i32 {
        let n = if self.take(1) == 0 {
            2
        } else if self.take(1) == 0 {
            1
        } else if self.take(1) == 0 {
            0
        } else {
            3
        };
        let v = self.take(n);
        extend(v, n)
    }
}

fn image<const N: usize>(w: usize, h: usize) {
    let d: [u8; N] = any();
    let out = ok(decompress(&d, None, w, h));
    assert!(out.len() == w * h, "samples");
    let mut word = 0u64;
    let mut i = 0;
    while i < N {
        word |= (d[i] as u64) << (56 - 8 * i);
        i += 1;
    }
    let mut b = Bits(word);
    let mut i = 0;
    let mut want = [0u16; 8];
    while i < w * h {
        let (row, col) = (i / w, i % w);
        let pred = if col >= 2 {
            want[i - 2]
        } else if row >= 2 {
            want[i - 2 * w]
        } else {
            0
        };
        want[i] = pred.wrapping_add(b.diff() as u16);
        assert!(out[i] == want[i], "sample");
        i += 1;
    }
    cover!(out[0] != 0 && out[1] != out[0]);
}

proofs! {
    #[kani::unwind(18)]
    fn p07_row() { image::<3>(4, 1) }
    #[kani::unwind(18)]
    fn p07_column() { image::<4>(2, 3) }
    #[kani::unwind(18)]
    fn p07_short() { image::<1>(2, 1) }
    #[kani::unwind(18)]
    fn p07_seven() { image::<7>(4, 2) }
    #[kani::unwind(18)]
    fn p07_size() {
        let d: [u8; 4] = any();
        assert!(is_err(decompress(&d, None, 0, 1)));
        assert!(is_err(decompress(&d, None, 1, 2)));
        assert!(is_err(decompress(&d, None, 3, 1)));
        cover!();
    }
}
