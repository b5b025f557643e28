//! P24: bilinear/median demosaicing of a Bayer image.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::demosaic::bimedian;
use libopenraw::CfaPattern;

/// Twice the mean of the two middle values.
fn median4(v: [u32; 4]) -> u32 {
    let (mut lo, mut hi, mut sum) = (v[0], v[0], 0);
    for x in v {
        if x < lo {
            lo = x;
        }
        if x > hi {
            hi = x;
        }
        sum += x;
    }
    sum - lo - hi
}

/// Twice the colour `c` at `x`, `y`.
fn reference<const N: usize>(s: &[u32; N], w: usize, cfa: &[u8; 4], x: usize, y: usize, c: u8) -> u32 {
    let at = |x: usize, y: usize| s[y * w + x];
    let own = cfa[y % 2 * 2 + x % 2];
    let row = cfa[y % 2 * 2 + (x + 1) % 2];
    if c == own {
        2 * at(x, y)
    } else if own == 1 {
        if c == row {
            at(x - 1, y) + at(x + 1, y)
        } else {
            at(x, y - 1) + at(x, y + 1)
        }
    } else if c == 1 {
        median4([at(x, y - 1), at(x - 1, y), at(x + 1, y), at(x, y + 1)])
    } else {
        median4([at(x - 1, y - 1), at(x + 1, y - 1), at(x - 1, y + 1), at(x + 1, y + 1)])
    }
}

const HALVES: [f64; 8] = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5];

fn image<const N: usize>(w: usize, h: usize, p: CfaPattern, cfa: [u8; 4]) {
    let raw: [u8; N] = any();
    let mut s = [0u32; N];
    let mut f = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        s[i] = raw[i] as u32 & 3;
        f.push([0.0, 1.0, 2.0, 3.0][s[i] as usize]);
        i += 1;
    }
    let out = ok(bimedian(f, w as u32, h as u32, &p));
    assert!(out.width as usize == w - 2 && out.height as usize == h - 2, "size");
    assert!(out.cc == 3 && out.data.len() == (w - 2) * (h - 2) * 3, "samples");
    let mut y = 1;
    while y < h - 1 {
        let mut x = 1;
        while x < w - 1 {
            let mut c = 0;
            while c < 3 {
                let v = out.data[((y - 1) * (w - 2) + x - 1) * 3 + c];
                let r = reference(&s, w, &cfa, x, y, c as u8);
                assert!(v == HALVES[r as usize & 7], "value");
                c += 1;
            }
            x += 1;
        }
        y += 1;
    }
    cover!(out.data[0] != out.data[1]);
}

const RGGB: [u8; 4] = [0, 1, 1, 2];
const GBRG: [u8; 4] = [1, 2, 0, 1];
const BGGR: [u8; 4] = [2, 1, 1, 0];
const GRBG: [u8; 4] = [1, 0, 2, 1];

proofs! {
    #[kani::unwind(38)]
    fn p24_rggb() { image::<16>(4, 4, CfaPattern::Rggb, RGGB) }
    #[kani::unwind(38)]
    fn p24_gbrg() { image::<16>(4, 4, CfaPattern::Gbrg, GBRG) }
    #[kani::unwind(38)]
    fn p24_bggr() { image::<16>(4, 4, CfaPattern::Bggr, BGGR) }
    #[kani::unwind(38)]
    fn p24_grbg() { image::<16>(4, 4, CfaPattern::Grbg, GRBG) }
    #[kani::unwind(50)]
    fn p24_wide() { image::<15>(5, 3, CfaPattern::Rggb, RGGB) }
    #[kani::unwind(50)]
    fn p24_high() { image::<15>(3, 5, CfaPattern::Grbg, GRBG) }
    #[kani::unwind(50)]
    fn p24_degenerate() {
        // Each size up to 3x3, with enough data or one sample less.
        let x = upto(3) as f64;
        let mut i = 0;
        while i < 32 {
            let (w, h, less) = (i % 4, i / 4 % 4, i >= 16);
            i += 1;
            if less && w * h == 0 {
                continue;
            }
            let mut v = Vec::with_capacity(9);
            let mut j = 0;
            while j < w * h - less as usize {
                v.push(x);
                j += 1;
            }
            match bimedian(v, w as u32, h as u32, &CfaPattern::Rggb) {
                Ok(o) => {
                    assert!(w == 3 && h == 3 && !less, "accepted");
                    assert!(o.width == 1 && o.height == 1 && o.data.len() == 3, "size");
                    cover!();
                }
                Err(e) => {
                    std::mem::forget(e);
                    assert!(w < 3 || h < 3 || less, "refused");
                }
            }
        }
    }
    #[kani::unwind(4)]
    fn p24_unsupported() {
        assert!(is_err(bimedian(vec![0.0; 9], 3, 3, &CfaPattern::Empty)));
        assert!(is_err(bimedian(vec![0.0; 9], 3, 3, &CfaPattern::NonRgb22(Vec::new()))));
        cover!();
    }
}
