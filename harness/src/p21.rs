//! P21: blocks of Minolta files.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::io::ReadAndSeek;
use libopenraw::verif::minolta::{data_len, Mrw};

impl ReadAndSeek for Words<64> {}

const PRD: &[u8; 4] = b"\0PRD";
const WBG: &[u8; 4] = b"\0WBG";
const RIF: &[u8; 4] = b"\0RIF";

fn put32(f: &mut [u8; 64], at: usize, v: u32, little: bool) {
    let s = |i: u32| (v >> if little { 8 * i } else { 24 - 8 * i }) as u8;
    f[at..at + 4].copy_from_slice(&[s(0), s(1), s(2), s(3)]);
}

fn u16_at(f: &[u8], at: usize, little: bool) -> u16 {
    if little { f[at] as u16 | (f[at + 1] as u16) << 8 } else { (f[at] as u16) << 8 | f[at + 1] as u16 }
}

/// The file that the model reads.
fn reader(d: &[u8; 64], len: usize) -> Box<dyn ReadAndSeek> {
    #[cfg(kani)]
    unsafe {
        libopenraw::verif::memory::DATA[..64].copy_from_slice(&d[..]);
        libopenraw::verif::memory::LENGTH = len as u64;
        libopenraw::verif::memory::POSITION = 0;
    }
    Box::new(Words::new(*d, len))
}

/// Dimensions from a PRD block at an offset.
fn info(offset: usize, little: bool) {
    let f: [u8; 64] = any();
    let mrm: u32 = any();
    let mut m = Mrw::new(reader(&f, 64), 64, little);
    m.set_blocks(mrm as u64, Some((offset as u64, 24)), None);
    assert!(m.data_offset() == 8 + mrm as u64, "offset of the data");
    let i = ok(m.info());
    let prd = offset + 8;
    let (w, h) = (u16_at(&f, prd + 10, little), u16_at(&f, prd + 8, little));
    assert!(i.size.0 == w as u32, "width");
    assert!(i.size.1 == h as u32, "height");
    assert!(i.bps == f[prd + 17] as u16, "bits");
    assert!(i.packed == (f[prd + 18] == 0x59), "storage");
    assert!(i.gbrg == (u16_at(&f, prd + 22, little) == 4), "pattern");
    cover!(i.packed && i.gbrg && w == 300);
    std::mem::forget(m);
}

/// Denominators of 2 to the power of 6 and this, then 16 bits nominators.
fn wb(offset: usize, little: bool) {
    let f: [u8; 64] = any();
    let mut m = Mrw::new(reader(&f, 64), 64, little);
    m.set_blocks(0, None, Some((offset as u64, 12)));
    let wbg = offset + 8;
    let d = [f[wbg], f[wbg + 1], f[wbg + 3]];
    let n = [u16_at(&f, wbg + 4, little), u16_at(&f, wbg + 6, little), u16_at(&f, wbg + 10, little)];
    let fits = d[0] <= 57 && d[1] <= 57 && d[2] <= 57;
    match m.wb() {
        None => assert!(!fits, "no white balance"),
        Some(got) => {
            if fits {
                // The nominator is cheaper to decide when it is a power of two.
                let mut i = 0;
                while i < 3 {
                    let j: usize = within(0, 15);
                    if n[i] == 1 << j {
                        let e = 1023 + 6 + d[i] as u64 - j as u64;
                        assert!(got[i].to_bits() == e << 52, "white balance");
                    }
                    i += 1;
                }
                cover!(d[0] == 2 && n[0] == 256 && n[1] == 512);
            }
            assert!(got[3].is_nan(), "only three");
        }
    }
    std::mem::forget(m);
}

/// The file has a block of any name and length, then another one.
fn blocks(little: bool) {
    let mut f: [u8; 64] = any();
    let (a, b) = (within(0, 3), within(0, 3));
    let l = within(0, 12);
    let names = [PRD, WBG, b"\0TTW", RIF];
    let mrm = 8 + l as u32 + 8 + 8;
    put32(&mut f, 4, mrm, little);
    f[8..12].copy_from_slice(&names[a][..]);
    put32(&mut f, 12, l as u32, little);
    f[16 + l..20 + l].copy_from_slice(&names[b][..]);
    put32(&mut f, 20 + l, 8, little);
    let mut m = Mrw::new(reader(&f, 64), 64, little);
    ok(m.load());
    let got = m.blocks();
    let want = |i: usize| {
        if b == i {
            Some((16 + l as u64, 8))
        } else if a == i {
            Some((8, l as u64))
        } else {
            None
        }
    };
    assert!(got[0] == want(0), "PRD");
    assert!(got[1] == want(1), "WBG");
    assert!(got[2] == want(2), "TTW");
    assert!(got[3] == want(3), "RIF");
    assert!(m.data_offset() == 8 + mrm as u64, "data");
    cover!(a == 0 && b == 1 && l == 5);
    std::mem::forget(m);
}

proofs! {
    #[kani::unwind(2)]
    fn p21_length() {
        let (w, h): (u16, u16) = (any(), any());
        let packed: bool = any();
        let n = w as u64 * h as u64;
        let len = data_len(w, h, packed);
        assert!(len == if packed { n + n / 2 } else { 2 * n }, "length of the data");
        cover!(packed && len > u32::MAX as u64);
    }
    #[kani::unwind(5)]
    fn p21_info() { info(8, false) }
    #[kani::unwind(5)]
    fn p21_info_little() { info(29, true) }
    #[kani::unwind(5)]
    fn p21_wb() { wb(8, false) }
    #[kani::unwind(5)]
    fn p21_wb_little() { wb(41, true) }
    #[kani::unwind(4)]
    #[kani::stub(std::string::String::from_utf8_lossy, crate::sym::lossy)]
    fn p21_blocks() { blocks(false) }
    /// Without the block, or with it cut, there is no information.
    #[kani::unwind(5)]
    fn p21_missing() {
        let f: [u8; 64] = any();
        let cut: bool = any();
        let block = if cut { Some((40, 24)) } else { None };
        let mut m = Mrw::new(reader(&f, 64), 64, false);
        m.set_blocks(0, block, block);
        assert!(is_err(m.info()), "no PRD");
        let mut m = Mrw::new(reader(&f, 64), 64, false);
        m.set_blocks(0, None, None);
        assert!(m.wb().is_none(), "no WBG");
        cover!(cut);
        std::mem::forget(m);
    }
}
