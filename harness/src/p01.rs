//! P01: packed samples unpack to the documented values.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::tiff::Compression;
use libopenraw::verif::unpack::unpack_from_reader;

/// The `i`th `n` bit big endian field of `d`.
fn be_field(d: &[u8], i: usize, n: usize) -> u16 {
    let mut v = 0u32;
    let p = i * n;
    let mut k = 0;
    while k < 3 {
        let b = p / 8 + k;
        v = (v << 8) | if b < d.len() { d[b] as u32 } else { 0 };
        k += 1;
    }
    ((v >> (24 - n - p % 8)) & ((1 << n) - 1)) as u16
}

/// The `i`th 12 bit little endian field of `d`.
fn le12_field(d: &[u8], i: usize) -> u16 {
    let p = i / 2 * 3;
    if i % 2 == 0 {
        d[p] as u16 | ((d[p + 1] & 15) as u16) << 8
    } else {
        (d[p + 1] >> 4) as u16 | (d[p + 2] as u16) << 4
    }
}

/// The sample `x` of a row. A padded row has one unused byte after every ten
/// samples.
fn sample(row: &[u8], x: usize, bpc: usize, little: bool, padded: bool) -> u16 {
    let (row, x) = if padded { (&row[x / 10 * 16..], x % 10) } else { (row, x) };
    if little { le12_field(row, x) } else { be_field(row, x, bpc) }
}

/// `H` rows of `row` bytes unpack to the reference values.
fn rows<const N: usize>(w: usize, h: usize, bpc: u16, comp: Compression, big: bool, little: bool, padded: bool) {
    let row = N / h;
    let d: [u8; N] = any();
    let mut r = &d[..];
    let out = ok(unpack_from_reader(&mut r, (w as u32, h as u32), bpc, comp, N, big));
    assert!(out.len() == w * h, "sample count");
    assert!(r.is_empty());
    let mut y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            assert!(out[y * w + x] == sample(&d[y * row..(y + 1) * row], x, bpc as usize, little, padded), "sample value");
            x += 1;
        }
        y += 1;
    }
    cover!(out[w * h - 1] != 0 && out[0] != out[1]);
}

/// Any declared byte length yields the whole rows it covers, from exactly as
/// many bytes, and never more than the image.
fn lengths<const N: usize>(w: usize, h: usize, bpc: u16, comp: Compression, big: bool) {
    let row = N / h;
    let d = [0xa5u8; N];
    let len = upto(N + 3);
    let mut r = &d[..];
    let out = ok(unpack_from_reader(&mut r, (w as u32, h as u32), bpc, comp, len, big));
    let bytes = if len < N { len } else { N };
    let n = (bytes + row - 1) / row;
    assert!(out.len() == n * w, "sample count");
    assert!(r.len() == N - n * row, "bytes consumed");
    cover!(n == h);
    cover!(n < h);
}

/// A file that ends before its rows is an error.
fn truncated<const N: usize>(w: usize, h: usize, bpc: u16, comp: Compression, big: bool) {
    let d = [0x5au8; N];
    let have = upto(N - 1);
    let mut r = &d[..have];
    assert!(is_err(unpack_from_reader(&mut r, (w as u32, h as u32), bpc, comp, N, big)), "short input");
    cover!(have > N / 2);
}

proofs! {
    #[kani::unwind(33)]
    fn p01_be10_w4() { rows::<10>(4, 2, 10, Compression::None, any(), false, false); }
    #[kani::unwind(33)]
    fn p01_be10_w12() { rows::<15>(12, 1, 10, Compression::None, any(), false, false); }
    #[kani::unwind(33)]
    fn p01_be14_w4() { rows::<14>(4, 2, 14, Compression::None, any(), false, false); }
    #[kani::unwind(33)]
    fn p01_be14_w12() { rows::<21>(12, 1, 14, Compression::None, any(), false, false); }
    #[kani::unwind(33)]
    fn p01_be12_w2() { rows::<9>(2, 3, 12, Compression::None, true, false, false); }
    #[kani::unwind(33)]
    fn p01_be12_w14() { rows::<42>(14, 2, 12, Compression::None, true, false, false); }
    #[kani::unwind(33)]
    fn p01_pentax_w12() { rows::<36>(12, 2, 12, Compression::PentaxPack, any(), false, false); }
    #[kani::unwind(33)]
    fn p01_le12_w2() { rows::<9>(2, 3, 12, Compression::None, false, true, false); }
    #[kani::unwind(33)]
    fn p01_le12_w14() { rows::<42>(14, 2, 12, Compression::None, false, true, false); }
    #[kani::unwind(33)]
    fn p01_nikon_w10() { rows::<48>(10, 3, 12, Compression::NikonPack, any(), false, true); }
    #[kani::unwind(33)]
    fn p01_nikon_w30() { rows::<48>(30, 1, 12, Compression::NikonPack, any(), false, true); }
    #[kani::unwind(33)]
    fn p01_olympus_w20() { rows::<64>(20, 2, 12, Compression::Olympus, any(), true, true); }
    #[kani::unwind(33)]
    fn p01_panasonic_w20() { rows::<64>(20, 2, 12, Compression::PanasonicRaw1, any(), true, true); }
    #[kani::unwind(20)]
    fn p01_lengths_be12() { lengths::<12>(4, 2, 12, Compression::None, true); }
    #[kani::unwind(20)]
    fn p01_lengths_nikon() { lengths::<32>(10, 2, 12, Compression::NikonPack, true); }
    #[kani::unwind(20)]
    fn p01_lengths_14() { lengths::<14>(4, 2, 14, Compression::None, false); }
    #[kani::unwind(20)]
    fn p01_truncated_12() { truncated::<12>(4, 2, 12, Compression::None, any()); }
    #[kani::unwind(20)]
    fn p01_truncated_10() { truncated::<10>(4, 2, 10, Compression::None, any()); }
    #[kani::unwind(20)]
    fn p01_invalid_depth() {
        let big = any();
        let mut bpc = 0;
        while bpc < 18 {
            if bpc != 10 && bpc != 12 && bpc != 14 {
                let d = [0u8; 16];
                let mut r = &d[..];
                assert!(is_err(unpack_from_reader(&mut r, (4, 2), bpc, Compression::None, 16, big)), "invalid depth");
            }
            bpc += 1;
        }
        cover!(big);
    }
}
