//! P06: Panasonic compressed samples.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::panasonic::{decode_chunk, get_chunk};

/// The chunk as a number: the first bits are the most significant.
struct Bits(u128);

impl Bits {
    fn take(&mut self, n: u32) -> u32 {
        let v = (self.0 >> (128 - n)) as u32;
        self.0 <<= n;
        v
    }
}

/// What the chunk holds, up to sample `n`.
fn reference(d: &[u8; 16], n: usize) -> u32 {
    let mut b = Bits(u128::from_le_bytes(*d));
    let mut last = [0u32; 2];
    let mut seen = [false; 2];
    let mut shift = 0;
    let mut i = 0;
    while i <= n {
        let c = i % 2;
        if i % 3 == 2 {
            shift = match b.take(2) {
                0 => 0,
                1 => 1,
                2 => 2,
                _ => 4,
            };
        }
        let v = b.take(8);
        if !seen[c] {
            if v != 0 {
                seen[c] = true;
                last[c] = v << 4 | b.take(4);
            } else {
                last[c] = 0;
            }
        } else if v != 0 {
            let keep = last[c] & ((1 << shift) - 1);
            let base = 0x80 << shift;
            last[c] = if shift == 4 || last[c] < base { (v << shift) | keep } else { last[c] - base + (v << shift) };
        }
        i += 1;
    }
    last[n % 2]
}

fn sample(n: usize) {
    let d: [u8; 16] = any();
    let out = decode_chunk(d);
    assert!(out[n] as u32 == reference(&d, n), "sample");
    cover!(out[n] > 255);
}

fn chunk(index: usize, at: usize) {
    let d: [u8; 16] = any();
    let mut data = vec![0u8; 0x8000];
    let base = index / 0x400 * 0x4000;
    let mut i = 0;
    while i < 16 {
        // Round the end of the block.
        data[base + (at + i) % 0x4000] = d[i];
        i += 1;
    }
    assert!(get_chunk(&data, index) == d, "chunk");
    cover!(d[0] != d[15]);
}

proofs! {
    #[kani::unwind(16)]
    fn p06_sample_0() { sample(0) }
    #[kani::unwind(16)]
    fn p06_sample_1() { sample(1) }
    #[kani::unwind(16)]
    fn p06_sample_2() { sample(2) }
    #[kani::unwind(16)]
    fn p06_sample_3() { sample(3) }
    #[kani::unwind(16)]
    fn p06_sample_5() { sample(5) }
    #[kani::unwind(16)]
    fn p06_sample_4() { sample(4) }
    #[kani::unwind(16)]
    fn p06_sample_12() { sample(12) }
    #[kani::unwind(16)]
    fn p06_sample_13() { sample(13) }
    #[kani::unwind(18)]
    fn p06_chunk_first() { chunk(0, 0x1ff8) }
    #[kani::unwind(18)]
    fn p06_chunk_before() { chunk(0x1ff, 0x3fe8) }
    #[kani::unwind(18)]
    fn p06_chunk_split() { chunk(0x200, 0x3ff8) }
    #[kani::unwind(18)]
    fn p06_chunk_after() { chunk(0x201, 8) }
    #[kani::unwind(18)]
    fn p06_chunk_last() { chunk(0x3ff, 0x1fe8) }
    #[kani::unwind(18)]
    fn p06_chunk_next() { chunk(0x600, 0x3ff8) }
}
