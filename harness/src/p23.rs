//! P23: colour filter array patterns.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::CfaPattern;

fn colour(c: u8) -> bool {
    c < 3 || c == 255
}

/// 2x2 patterns.
fn bayer() {
    let d: [u8; 4] = any();
    let known = match d {
        [0, 1, 1, 2] => Some((CfaPattern::Rggb, 2)),
        [1, 2, 0, 1] => Some((CfaPattern::Gbrg, 3)),
        [2, 1, 1, 0] => Some((CfaPattern::Bggr, 4)),
        [1, 0, 2, 1] => Some((CfaPattern::Grbg, 5)),
        _ => None,
    };
    match (CfaPattern::try_from(&d[..]), known) {
        (Ok(p), Some((k, t))) => {
            assert!(p == k, "pattern");
            assert!(p.pattern_type() as u8 == t, "type");
            assert!(p.width() == 2 && p.height() == 2, "size");
            let mut y = 0;
            while y < 2 {
                let mut x = 0;
                while x < 2 {
                    assert!(p[(x, y)] as u8 == d[y * 2 + x], "colour at");
                    x += 1;
                }
                y += 1;
            }
            assert!(p.pattern().len() == 4);
            cover!(t == 5);
        }
        (Err(_), None) => cover!(),
        (Ok(_), None) => assert!(false, "unknown pattern accepted"),
        (Err(_), Some(_)) => assert!(false, "pattern refused"),
    }
}

/// Other patterns of `N` elements.
fn other<const N: usize>() {
    let d: [u8; N] = any();
    let mut valid = true;
    for c in d {
        valid &= colour(c);
    }
    match CfaPattern::try_from(&d[..]) {
        Ok(p) => {
            assert!(valid, "invalid colour accepted");
            assert!(p.pattern_type() as u8 == 1);
            let got = p.pattern();
            assert!(got.len() == N, "length");
            let mut i = 0;
            while i < N {
                assert!(got[i] as u8 == d[i], "colour");
                i += 1;
            }
            if N == 36 {
                let mut i = 0;
                while i < N {
                    assert!(p[(i % 6, i / 6)] as u8 == d[i], "colour at");
                    i += 1;
                }
            }
            cover!();
        }
        Err(_) => assert!(!valid, "pattern refused"),
    }
    cover!(!valid);
}

proofs! {
    #[kani::unwind(8)]
    fn p23_bayer() { bayer() }
    #[kani::unwind(12)]
    fn p23_other_3() { other::<3>() }
    #[kani::unwind(12)]
    fn p23_other_8() { other::<8>() }
    #[kani::unwind(40)]
    fn p23_xtrans() { other::<36>() }
}
