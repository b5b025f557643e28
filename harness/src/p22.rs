//! P22: cropping to an aspect ratio.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::{AspectRatio, Point, Rect, Size};

/// Any size up to `1 << bits`, an aspect ratio of `a:b`.
fn crop(a: u32, b: u32, bits: u32) {
    let width: u32 = any();
    let height: u32 = any();
    assume(width < 1 << bits && height < 1 << bits && width > 0 && height > 0);
    let s = AspectRatio(a, b).crop(Size { width, height });
    let (w, h, a, b) = (width as u64, height as u64, a as u64, b as u64);
    // Exactly the widest, or the highest, that has the ratio.
    if w * b > h * a {
        assert!(s.height == height, "full height");
        assert!(s.width as u64 == h * a / b, "width");
    } else {
        assert!(s.width == width, "full width");
        assert!(s.height as u64 == w * b / a, "height");
    }
    cover!(s.width < width);
    cover!(s.height < height);
}

/// The crop is centred in the rectangle.
fn centred(a: u32, b: u32, bits: u32) {
    let r = Rect::new(
        Point { x: any(), y: any() },
        Size { width: any(), height: any() },
    );
    assume(r.width < 1 << bits && r.height < 1 << bits && r.width > 0 && r.height > 0);
    assume(r.x < 1 << 16 && r.y < 1 << 16);
    let c = AspectRatio(a, b).crop_into(&r);
    assert!(c.x >= r.x && c.y >= r.y, "origin");
    assert!(c.x + c.width <= r.x + r.width && c.y + c.height <= r.y + r.height, "inside");
    assert!(c.x - r.x == (r.width - c.width) / 2, "centred horizontally");
    assert!(c.y - r.y == (r.height - c.height) / 2, "centred vertically");
    assert!(c.width == r.width || c.height == r.height, "one full side");
    cover!(c.x > r.x);
    cover!(c.y > r.y);
}

proofs! {
    fn p22_crop_1_1() { crop(1, 1, 14) }
    fn p22_crop_3_2() { crop(3, 2, 14) }
    fn p22_crop_4_3() { crop(4, 3, 14) }
    fn p22_crop_16_9() { crop(16, 9, 14) }
    fn p22_crop_65_24() { crop(65, 24, 14) }
    fn p22_centred_3_2() { centred(3, 2, 14) }
    fn p22_centred_16_9() { centred(16, 9, 14) }
}
