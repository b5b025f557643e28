//! P16: maker note geometry.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::canon::{aspect_info, sensor_info};
use libopenraw::verif::sony::decipher;

fn vec16(v: &[u16; 13], n: usize) -> Vec<u16> {
    let mut r = Vec::with_capacity(13);
    let mut i = 0;
    while i < n {
        r.push(v[i]);
        i += 1;
    }
    r
}

fn sensor(n: usize) {
    let v: [u16; 13] = any();
    let (l, t, r, b) = (v[5] as u32, v[6] as u32, v[7] as u32, v[8] as u32);
    match sensor_info(vec16(&v, n)) {
        Some(i) => {
            assert!(n > 8 && l < r && t < b, "refused");
            assert!(i.x == l && i.y == t, "origin");
            assert!(i.width == (r - l + 1) / 2 * 2 && i.height == (b - t + 1) / 2 * 2, "size");
        }
        None => assert!(n <= 8 || l >= r || t >= b, "accepted"),
    }
    cover!();
}

fn aspect(n: usize) {
    let v: [u32; 6] = any();
    let mut a = Vec::with_capacity(6);
    let mut i = 0;
    while i < n {
        a.push(v[i]);
        i += 1;
    }
    match aspect_info(a) {
        Some((ratio, r)) => {
            assert!(n >= 5, "too short");
            assert!(r.width == v[1] && r.height == v[2] && r.x == v[3] && r.y == v[4], "rectangle");
            let want = match v[0] {
                0 | 12 | 13 | 256 => Some((3, 2)),
                1 => Some((1, 1)),
                2 | 258 => Some((4, 3)),
                7 => Some((16, 9)),
                8 => Some((4, 5)),
                _ => None,
            };
            assert!(ratio.map(|r| (r.0, r.1)) == want, "ratio");
        }
        None => assert!(n < 5, "accepted"),
    }
    cover!();
}

/// The cipher.
fn cipher(v: u8) -> u8 {
    if v < 249 {
        (v as u32 * v as u32 * v as u32 % 249) as u8
    } else {
        v
    }
}

proofs! {
    #[kani::unwind(15)]
    fn p16_sensor_9() { sensor(9) }
    #[kani::unwind(15)]
    fn p16_sensor_13() { sensor(13) }
    #[kani::unwind(15)]
    fn p16_sensor_short() { sensor(8) }
    #[kani::unwind(15)]
    fn p16_sensor_none() { sensor(0) }
    #[kani::unwind(15)]
    fn p16_aspect_5() { aspect(5) }
    #[kani::unwind(15)]
    fn p16_aspect_6() { aspect(6) }
    #[kani::unwind(15)]
    fn p16_aspect_short() { aspect(4) }
    #[kani::unwind(15)]
    fn p16_aspect_none() { aspect(0) }
    #[kani::unwind(6)]
    fn p16_decipher() {
        let v: [u8; 3] = any();
        let mut d = [cipher(v[0]), cipher(v[1]), cipher(v[2])];
        decipher(&mut d);
        assert!(d == v, "deciphered");
        cover!(v[0] > 248);
    }
}
