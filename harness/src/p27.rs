//! P27: metadata values of TIFF entries.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::metadata::Value;
use libopenraw::tiff::exif::{Rational, SRational};
use libopenraw::verif::metadata::value;

fn u16_at(d: &[u8], o: usize, big: bool) -> u16 {
    if big { (d[o] as u16) << 8 | d[o + 1] as u16 } else { (d[o + 1] as u16) << 8 | d[o] as u16 }
}

fn u32_at(d: &[u8], o: usize, big: bool) -> u32 {
    let (a, b) = (u16_at(d, o, big) as u32, u16_at(d, o + 2, big) as u32);
    if big { a << 16 | b } else { b << 16 | a }
}

fn u64_at(d: &[u8], o: usize, big: bool) -> u64 {
    let (a, b) = (u32_at(d, o, big) as u64, u32_at(d, o + 4, big) as u64);
    if big { a << 32 | b } else { b << 32 | a }
}

fn entry<const N: usize>(typ: i16, count: u32) -> ([u8; N], bool, Value) {
    let d: [u8; N] = any();
    let big: bool = any();
    let mut v = Vec::with_capacity(N);
    v.extend_from_slice(&d);
    (d, big, value(typ, count, v, big))
}

/// The value has all the numbers, of the kind of the type.
macro_rules! numbers {
    ($n:literal, $type:expr, $count:expr, $variant:ident, |$d:ident, $i:ident, $big:ident, $x:ident| $same:expr) => {{
        let ($d, $big, v) = entry::<$n>($type, $count);
        assert!(v.count() == $count, "count");
        assert!($type == 2 || v.string().is_none(), "not a string");
        match &v {
            Value::$variant(a) => {
                assert!(a.len() == $count, "values");
                let mut $i = 0;
                while $i < $count {
                    let $x = a[$i];
                    assert!($same, "value");
                    $i += 1;
                }
            }
            _ => panic!("kind of value"),
        }
        first(&v);
        cover!($d[0] == 1);
        std::mem::forget(v);
    }};
}

/// The first integer or rational.
fn first(v: &Value) {
    let (int, rational) = match v {
        Value::Int(a) if a.len() > 0 => (Some(a[0]), None),
        Value::Rational(a) if a.len() > 0 => (None, Some(a[0])),
        _ => (None, None),
    };
    assert!(v.integer() == int, "integer");
    assert!(v.rational() == rational, "rational");
}

/// Without data for the count, or of no known type, there are only bytes.
fn invalid(typ: i16, count: u32) {
    let (d, _, v) = entry::<6>(typ, count);
    match &v {
        Value::Invalid(a) => {
            assert!(a.len() == 6 && a[0] == d[0] && a[5] == d[5], "bytes");
        }
        _ => panic!("invalid"),
    }
    assert!(v.count() == 6, "count");
    first(&v);
    cover!(d[5] == 4);
    std::mem::forget(v);
}

fn same_rational(r: Rational, d: &[u8], i: usize, big: bool) -> bool {
    r.num == u32_at(d, 8 * i, big) && r.denom == u32_at(d, 8 * i + 4, big)
}

fn same_srational(r: SRational, d: &[u8], i: usize, big: bool) -> bool {
    r.num == u32_at(d, 8 * i, big) as i32 && r.denom == u32_at(d, 8 * i + 4, big) as i32
}

proofs! {
    #[kani::unwind(10)]
    fn p27_byte() {
        numbers!(4, 1, 1, Bytes, |d, i, big, x| x == d[i]);
        numbers!(6, 1, 5, Bytes, |d, i, big, x| x == d[i]);
    }
    #[kani::unwind(10)]
    fn p27_undefined() { numbers!(6, 7, 6, Bytes, |d, i, big, x| x == d[i]); }
    #[kani::unwind(10)]
    fn p27_sbyte() { numbers!(4, 6, 3, SBytes, |d, i, big, x| x == d[i] as i8); }
    #[kani::unwind(10)]
    fn p27_short() {
        numbers!(4, 3, 1, Int, |d, i, big, x| x == u16_at(&d, 2 * i, big) as u32);
        numbers!(6, 3, 3, Int, |d, i, big, x| x == u16_at(&d, 2 * i, big) as u32);
    }
    #[kani::unwind(10)]
    fn p27_long() { numbers!(8, 4, 2, Int, |d, i, big, x| x == u32_at(&d, 4 * i, big)); }
    #[kani::unwind(10)]
    fn p27_sshort() { numbers!(6, 8, 3, SInt, |d, i, big, x| x == u16_at(&d, 2 * i, big) as i16 as i32); }
    #[kani::unwind(10)]
    fn p27_slong() { numbers!(8, 9, 2, SInt, |d, i, big, x| x == u32_at(&d, 4 * i, big) as i32); }
    #[kani::unwind(10)]
    fn p27_rational() { numbers!(16, 5, 2, Rational, |d, i, big, x| same_rational(x, &d, i, big)); }
    #[kani::unwind(10)]
    fn p27_srational() { numbers!(16, 10, 2, SRational, |d, i, big, x| same_srational(x, &d, i, big)); }
    #[kani::unwind(10)]
    fn p27_float() { numbers!(8, 11, 2, Float, |d, i, big, x| x.to_bits() == u32_at(&d, 4 * i, big)); }
    #[kani::unwind(10)]
    fn p27_double() { numbers!(16, 12, 2, Double, |d, i, big, x| x.to_bits() == u64_at(&d, 8 * i, big)); }

    #[kani::unwind(10)]
    fn p27_empty() {
        numbers!(4, 4, 0, Int, |d, i, big, x| x == 0);
        numbers!(4, 5, 0, Rational, |d, i, big, x| x.num == 0);
    }

    #[kani::unwind(10)]
    fn p27_cut() {
        invalid(1, 7);
        invalid(3, 4);
        invalid(4, 2);
        invalid(5, 1);
    }
    #[kani::unwind(10)]
    fn p27_cut_signed() {
        invalid(6, 7);
        invalid(8, u32::MAX);
        invalid(9, 2);
        invalid(10, 1);
    }
    #[kani::unwind(10)]
    fn p27_cut_other() {
        invalid(7, 7);
        invalid(11, 2);
        invalid(12, 1);
    }
    #[kani::unwind(10)]
    fn p27_invalid() {
        invalid(0, 1);
        invalid(13, 1);
        invalid(14, 1);
        invalid(-1, 1);
        invalid(10000, 1);
    }
}
