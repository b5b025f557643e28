//! P03: lossless JPEG samples.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::verif::ljpeg::{decode, extend, predict, restart as restart_marker, Header, Table};

/// The prediction of ITU T.81 table H.1.
fn prediction(psv: u8, a: i32, b: i32, c: i32) -> i32 {
    match psv {
        1 => a,
        2 => b,
        3 => c,
        4 => a + b - c,
        5 => a + ((b - c) >> 1),
        6 => b + ((a - c) >> 1),
        7 => (a + b) >> 1,
        _ => 0,
    }
}

/// The difference that `n` bits stand for.
fn difference(v: u32, n: u32) -> i32 {
    if n == 0 {
        0
    } else if v >> (n - 1) == 0 {
        v as i32 - (1 << n) + 1
    } else {
        v as i32
    }
}

/// What the codes of both tables mean: all of 4 bits, the second table has
/// them in the reverse order.
struct Bits(u128);

impl Bits {
    fn take(&mut self, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        let v = (self.0 >> (128 - n)) as u32;
        self.0 <<= n;
        v
    }
    fn diff(&mut self, c: usize) -> i32 {
        let code = self.take(4);
        let n = if c == 0 { code } else { 15 - code };
        let v = self.take(n);
        difference(v, n)
    }
}

const UP: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
const DOWN: [u8; 16] = [15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0];

fn word(d: &[u8]) -> u128 {
    let mut bytes = [0; 16];
    bytes[..d.len()].copy_from_slice(d);
    u128::from_be_bytes(bytes)
}

fn image<const N: usize>(w: usize, h: usize, comps: usize, psv: u8, pt: u8, precision: u8) {
    let tables: [(&[u8], &[u8]); 2] = [(&[0, 0, 0, 0, 16], &UP), (&[0, 0, 0, 0, 16], &DOWN)];
    let d: [u8; N] = any();
    let header = Header {
        width: w as u16,
        height: h as u16,
        components: comps as u8,
        precision,
        psv,
        pt,
        restart_interval: 0,
    };
    let out = ok(decode(&header, &tables[..comps], &d));
    assert!(out.len() == w * h * comps, "samples");
    let word = word(&d);
    let mut b = Bits(word);
    let mut want = [0u16; 16];
    let row = w * comps;
    let mut i = 0;
    while i < row * h {
        let (y, x, c) = (i / row, i % row / comps, i % comps);
        let at = |n: usize| want[i - n] as i32;
        let p = if y == 0 && x == 0 {
            1 << (precision - pt - 1)
        } else if y == 0 {
            at(comps)
        } else if x == 0 {
            at(row)
        } else {
            prediction(psv, at(comps), at(row), at(row + comps))
        };
        want[i] = (p + b.diff(c)) as u16;
        assert!(out[i] == want[i] << pt, "sample");
        i += 1;
    }
    cover!(out[0] != out[row * h - 1]);
}

/// One column of `H` rows, with a restart marker after the first `rows`.
fn restart<const H: usize, const N: usize>(rows: usize, after: usize) {
    let tables: [(&[u8], &[u8]); 1] = [(&[0, 0, 0, 0, 16], &UP)];
    let mut d: [u8; N] = any();
    let mut i = 0;
    while i < after {
        assume(d[i] != 0xff);
        i += 1;
    }
    d[after] = 0xff;
    let good: bool = any();
    d[after + 1] = if good { 0xd0 } else { 0xd1 };
    let header = Header {
        width: 1,
        height: H as u16,
        components: 1,
        precision: 12,
        psv: 1,
        pt: 0,
        restart_interval: rows as u16,
    };
    let word = word(&d);
    let mut b = Bits(word);
    let mut want = [0u16; 4];
    let mut used = 0;
    let mut i = 0;
    while i < rows {
        used += 4 + (b.0 >> 124) as usize;
        let p = if i == 0 { 1 << 11 } else { want[i - 1] as i32 };
        want[i] = (p + b.diff(0)) as u16;
        i += 1;
    }
    // The data of the first rows is before the marker.
    assume(used <= after * 8);
    let mut b = Bits(word << (8 * after + 16));
    while i < H {
        let p = if i == rows { 1 << 11 } else { want[i - 1] as i32 };
        want[i] = (p + b.diff(0)) as u16;
        i += 1;
    }
    let r = decode(&header, &tables, &d);
    if good {
        let out = ok(r);
        let mut i = 0;
        while i < H {
            assert!(out[i] == want[i], "sample");
            i += 1;
        }
    } else {
        assert!(is_err(r), "marker");
    }
    cover!(good && want[0] != 1 << 11);
    cover!(!good);
}

proofs! {
    #[kani::unwind(4)]
    fn p03_predict() {
        let psv: u8 = any();
        let a: u16 = any();
        let b: u16 = any();
        let c: u16 = any();
        assert!(predict(psv, a, b, c) == prediction(psv, a as i32, b as i32, c as i32));
        cover!(psv == 6 && c > a);
    }
    #[kani::unwind(4)]
    fn p03_extend() {
        let s = within(1, 15) as u8;
        let x: u16 = any();
        assume((x as u32) < 1 << s);
        assert!(extend(x, s) == difference(x as u32, s as u32));
        cover!(s == 15 && x < 1 << 14);
    }
    #[kani::unwind(20)]
    fn p03_row() { image::<9>(3, 1, 1, 1, 0, 8) }
    #[kani::unwind(20)]
    fn p03_square_2() { image::<12>(2, 2, 1, 2, 0, 16) }
    #[kani::unwind(20)]
    fn p03_square_4() { image::<12>(2, 2, 1, 4, 1, 14) }
    #[kani::unwind(20)]
    fn p03_square_6() { image::<12>(2, 2, 1, 6, 0, 14) }
    #[kani::unwind(20)]
    fn p03_two_row() { image::<12>(2, 1, 2, 1, 3, 14) }
    #[kani::unwind(20)]
    fn p03_two_column() { image::<12>(1, 2, 2, 1, 0, 14) }
    #[kani::unwind(4)]
    fn p03_restart_number() {
        let n = any::<u8>() & 7;
        let m: u8 = any();
        assume(m != 0 && m != 0xff);
        match restart_marker(n, &[0xff, m]) {
            Ok(next) => {
                assert!(m == 0xd0 + n, "marker");
                assert!(next == (n + 1) % 8, "next");
                cover!(next == 0);
            }
            Err(e) => {
                std::mem::forget(e);
                assert!(m != 0xd0 + n, "refused");
            }
        }
    }
    #[kani::unwind(5)]
    fn p03_restart() { restart::<2, 6>(1, 1) }
}
