//! P25: linearisation and what is rendered.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::RawImage;

fn linearize<const N: usize>(d: &[u16; N], black: u16, white: u16, table: Option<Vec<u16>>) -> Vec<u16> {
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(d[i]);
        i += 1;
    }
    let mut r = RawImage::new();
    r.set_blacks([black; 4]);
    r.set_whites([white; 4]);
    let _ = table;
    let o = r.verif_linearize(v, N as u32, 1);
    std::mem::forget(r);
    o
}

/// The value a raw sample maps to.
fn scaled(v: u16, black: u16, white: u16) -> u16 {
    let v = if v < black { 0.0 } else { (v - black) as f64 };
    (v / (white as f64 - black as f64) * 65535.0).round() as u16
}

fn levels(black: u16, white: u16) {
    let d: [u16; 1] = any();
    let out = linearize(&d, black, white, None);
    assert!(out.len() == 1);
    assert!(out[0] == scaled(d[0], black, white), "value");
    cover!(out[0] > 0 && out[0] < 65535);
}

/// At or below black.
fn black(black: u16, white: u16) {
    let d: [u16; 1] = any();
    assume(d[0] <= black);
    assert!(linearize(&d, black, white, None)[0] == 0, "black");
    cover!(d[0] == black);
}

/// White and above.
fn white(black: u16, white: u16) {
    let d: [u16; 1] = any();
    assume(d[0] >= white);
    assert!(linearize(&d, black, white, None)[0] == 65535, "white");
    cover!(d[0] > white);
}

proofs! {
    #[kani::unwind(4)]
    fn p25_levels_14() { levels(512, 16383) }
    #[kani::unwind(4)]
    fn p25_levels_16() { levels(0, 65535) }
    #[kani::unwind(4)]
    fn p25_black() { black(512, 16383) }
    #[kani::unwind(4)]
    fn p25_white() { white(512, 16383) }
}
