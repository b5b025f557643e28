//! P05: tiles and slices.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::ljpeg::slices as declared;
use libopenraw::verif::tiles::{combine, slices, Tile};

/// A tile of `len` samples, or that could not be decoded.
fn tile(tw: usize, th: usize, len: usize, data: &mut [u16; 12]) -> Option<Tile> {
    if len == NONE {
        return None;
    }
    let mut k = 0;
    let mut buf = Vec::with_capacity(len);
    while k < len {
        data[k] = any();
        buf.push(data[k]);
        k += 1;
    }
    Some(Tile { width: tw as u32, height: th as u32, u_width: tw as u32, u_height: th as u32, bpc: 16, buf })
}

/// A `w` by `h` image of tiles of `tw` by `th`. `lens` are the number of
/// samples of each.
fn tiles<const N: usize>(w: usize, h: usize, tw: usize, th: usize, lens: [usize; N]) {
    let mut data = [[0u16; 12]; N];
    let mut tiles: [Option<Tile>; N] = [const { None }; N];
    let mut i = 0;
    while i < N {
        tiles[i] = tile(tw, th, lens[i], &mut data[i]);
        i += 1;
    }
    let out = combine(w, h, &tiles);
    assert!(out.len() == w * h, "size");
    let across = (w + tw - 1) / tw;
    let mut y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            let t = y / th * across + x / tw;
            // Tiles are short of whole rows.
            let want = if t >= N || lens[t] == usize::MAX || (y % th + 1) * tw > lens[t] {
                0
            } else {
                data[t][y % th * tw + x % tw]
            };
            assert!(out[y * w + x] == want, "sample");
            x += 1;
        }
        y += 1;
    }
    cover!();
    std::mem::forget(tiles);
}

const NONE: usize = usize::MAX;

/// `N` samples written `step` at a time.
fn sliced<const N: usize>(w: usize, h: usize, widths: Option<&[u32]>, step: usize) {
    let data: [u16; N] = any();
    let out = slices(w as u32, h as u32, widths, &data, step);
    assert!(out.len() == w * h, "size");
    let whole = [w as u32];
    let ws = widths.unwrap_or(&whole);
    let mut k = 0;
    let mut left = 0;
    let mut s = 0;
    while s < ws.len() {
        let mut y = 0;
        while y < h {
            let mut x = 0;
            while x < ws[s] as usize {
                let want = if k < N { data[k] } else { 0 };
                assert!(out[y * w + left + x] == want, "sample");
                k += 1;
                x += 1;
            }
            y += 1;
        }
        left += ws[s] as usize;
        s += 1;
    }
    cover!(out[0] != 0);
}

proofs! {
    #[kani::unwind(17)]
    fn p05_tiles_exact() { tiles(4, 4, 2, 2, [4, 4, 4, 4]) }
    #[kani::unwind(17)]
    fn p05_tiles_edges() { tiles(5, 3, 2, 2, [4, 4, 4, 4, 4, 4]) }
    #[kani::unwind(17)]
    fn p05_tiles_wide() { tiles(2, 3, 3, 2, [6, 6]) }
    #[kani::unwind(17)]
    fn p05_tiles_first_missing() { tiles(4, 4, 2, 2, [NONE, 4, 4, 4]) }
    #[kani::unwind(17)]
    fn p05_tiles_missing() { tiles(5, 3, 3, 2, [6, NONE, NONE, 6]) }
    #[kani::unwind(17)]
    fn p05_tiles_short() { tiles(4, 4, 2, 2, [4, 2, 0, 3]) }
    #[kani::unwind(17)]
    fn p05_tiles_few() { tiles(4, 4, 2, 2, [4, 4, 4]) }
    #[kani::unwind(17)]
    fn p05_tiles_many() { tiles(4, 2, 2, 2, [4, 4, 4]) }
    #[kani::unwind(17)]
    fn p05_tiles_none() { tiles(2, 2, 2, 2, [NONE]) }
    #[kani::unwind(26)]
    fn p05_slices_none() { sliced::<12>(4, 3, None, 3) }
    #[kani::unwind(26)]
    fn p05_slices_two() { sliced::<15>(5, 3, Some(&[2, 3]), 2) }
    #[kani::unwind(26)]
    fn p05_slices_three() { sliced::<12>(6, 2, Some(&[2, 2, 2]), 4) }
    #[kani::unwind(26)]
    fn p05_slices_uneven() { sliced::<21>(7, 3, Some(&[3, 3, 1]), 7) }
    #[kani::unwind(26)]
    fn p05_slices_short() { sliced::<7>(5, 2, Some(&[2, 3]), 3) }
    #[kani::unwind(26)]
    fn p05_slices_long() { sliced::<16>(5, 2, Some(&[2, 3]), 4) }
    #[kani::unwind(26)]
    fn p05_slices_none_long() { sliced::<9>(3, 2, None, 4) }
    #[kani::unwind(26)]
    fn p05_slices_malformed() {
        // They aren't the width of the image.
        let a = within(0, 5) as u32;
        let b = within(0, 5) as u32;
        let data: [u16; 8] = any();
        let out = slices(3, 2, Some(&[a, b]), &data, 4);
        assert!(out.len() == 6);
        cover!(a + b > 3);
        cover!(a + b < 3);
    }
    #[kani::unwind(8)]
    fn p05_slices_declared() {
        let a: u32 = any();
        let b: u32 = any();
        assert!(declared(&[2, a, b]).is_some_and(|v| v.len() == 3 && v[0] == a && v[1] == a && v[2] == b));
        assert!(declared(&[1, a, b]).is_some_and(|v| v.len() == 2 && v[0] == a && v[1] == b));
        assert!(declared(&[0, a, b]).is_some_and(|v| v.len() == 1 && v[0] == b));
        assert!(declared(&[a, b]).is_none());
        assert!(declared(&[a]).is_none());
        assert!(declared(&[]).is_none());
        cover!();
    }
}
