//! P13: values of TIFF entries.
use crate::sym::*;
use crate::{cover, proofs};
use libopenraw::tiff::exif::{Rational, SRational};
use libopenraw::verif::entry::E;

const BYTE: i16 = 1;
const SHORT: i16 = 3;
const LONG: i16 = 4;
const RATIONAL: i16 = 5;
const SBYTE: i16 = 6;
const UNDEFINED: i16 = 7;
const SSHORT: i16 = 8;
const SLONG: i16 = 9;
const SRATIONAL: i16 = 10;
const FLOAT: i16 = 11;
const DOUBLE: i16 = 12;

fn vec_of(d: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(d.len());
    v.extend_from_slice(d);
    v
}

fn u16_at(d: &[u8], o: usize, big: bool) -> u16 {
    if big { u16::from_be_bytes([d[o], d[o + 1]]) } else { u16::from_le_bytes([d[o], d[o + 1]]) }
}

fn u32_at(d: &[u8], o: usize, big: bool) -> u32 {
    let b = [d[o], d[o + 1], d[o + 2], d[o + 3]];
    if big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
}

/// Anything but a well formed entry.
fn any_type() -> i16 {
    let t: i16 = any();
    assume((t >= -1 && t <= 14) || t == 10000);
    t
}

/// A typed value: only from its type, at any index with data.
macro_rules! typed {
    ($t:ty, $type:expr, $size:expr, $d:ident, $o:ident, $big:ident, $e:expr) => {{
        let $d: [u8; 16] = any();
        let typ = any_type();
        let count: u32 = any();
        let index: u32 = any();
        let $big: bool = any();
        let e = E::with_data(typ, count, vec_of(&$d));
        let v = e.value_at::<$t>(index, $big);
        if (typ != $type && typ != UNDEFINED) || index >= count {
            assert!(v.is_none(), "wrong type or index");
        } else if index as usize >= 16 / $size {
            assert!(v.is_none(), "no data");
        } else {
            let $o = index as usize * $size;
            assert!(v == Some($e), "value");
        }
        cover!(typ == $type && index as usize == 16 / $size - 1 && v.is_some() && $big);
        cover!(typ == $type && index as usize == 16 / $size && v.is_none() && index < count);
    }};
}

proofs! {
    #[kani::unwind(20)]
    fn p13_u8() { typed!(u8, BYTE, 1, d, o, big, d[o]); }
    #[kani::unwind(20)]
    fn p13_i8() { typed!(i8, SBYTE, 1, d, o, big, d[o] as i8); }
    #[kani::unwind(20)]
    fn p13_u16() { typed!(u16, SHORT, 2, d, o, big, u16_at(&d, o, big)); }
    #[kani::unwind(20)]
    fn p13_i16() { typed!(i16, SSHORT, 2, d, o, big, u16_at(&d, o, big) as i16); }
    #[kani::unwind(20)]
    fn p13_u32() { typed!(u32, LONG, 4, d, o, big, u32_at(&d, o, big)); }
    #[kani::unwind(20)]
    fn p13_i32() { typed!(i32, SLONG, 4, d, o, big, u32_at(&d, o, big) as i32); }
    #[kani::unwind(20)]
    fn p13_rational() {
        typed!(Rational, RATIONAL, 8, d, o, big, Rational { num: u32_at(&d, o, big), denom: u32_at(&d, o + 4, big) });
    }
    #[kani::unwind(20)]
    fn p13_srational() {
        typed!(SRational, SRATIONAL, 8, d, o, big, SRational { num: u32_at(&d, o, big) as i32, denom: u32_at(&d, o + 4, big) as i32 });
    }

    /// The first value as an unsigned integer, for any type, inline or not.
    #[kani::unwind(18)]
    fn p13_uint() { first(|e, big| e.uint(big).map(|v| v as i64), false); }
    #[kani::unwind(18)]
    fn p13_uint_inline() { first(|e, big| e.uint(big).map(|v| v as i64), true); }
    #[kani::unwind(18)]
    fn p13_int() { first(|e, big| e.int(big).map(|v| v as i64), false); }
    #[kani::unwind(18)]
    fn p13_int_inline() { first(|e, big| e.int(big).map(|v| v as i64), true); }

    /// A rational as an integer is its quotient, and there is none by zero.
    #[kani::unwind(12)]
    fn p13_uint_rational() {
        let (n, d): (u16, u8) = (any(), any());
        let big: bool = any();
        let (n, d) = (n as u32, d as u32);
        let b = if big { (n.to_be_bytes(), d.to_be_bytes()) } else { (n.to_le_bytes(), d.to_le_bytes()) };
        let e = E::with_data(RATIONAL, 1, vec_of(&[b.0[0], b.0[1], b.0[2], b.0[3], b.1[0], b.1[1], b.1[2], b.1[3]]));
        match e.uint(big) {
            Some(q) => {
                if d != 0 {
                    assert!(q <= n && q * d <= n && n < q * d + d, "quotient");
                }
            }
            None => assert!(d == 0, "value"),
        }
        cover!(d == 0);
        cover!(d == 7 && n == 65000 && big);
    }

    /// Integer arrays: as many values as the count, or nothing.
    #[kani::unwind(12)]
    fn p13_array_short() { uints(SHORT, 2); }
    #[kani::unwind(12)]
    fn p13_array_long() { uints(LONG, 4); }
    #[kani::unwind(12)]
    fn p13_array_sshort() { ints(SSHORT, 2); }
    #[kani::unwind(12)]
    fn p13_array_slong() { ints(SLONG, 4); }

    /// Nothing for another type.
    #[kani::unwind(18)]
    fn p13_array_types() {
        let d: [u8; 8] = any();
        let big: bool = any();
        let mut typ = -1;
        while typ <= 14 {
            let e = E::with_data(typ, 1, vec_of(&d));
            assert!(is_some(e.uints(big)) == (typ == SHORT || typ == LONG || typ == RATIONAL), "unsigned");
            assert!(is_some(e.ints(big)) == (typ == SSHORT || typ == SLONG), "signed");
            typ += 1;
        }
        cover!(big);
    }

    /// UNDEFINED as an array of 16 bits values: the count is in bytes.
    #[kani::unwind(12)]
    fn p13_array_u16() { values(SHORT); }
    #[kani::unwind(12)]
    fn p13_array_undefined() { values(UNDEFINED); }

    /// Any count there isn't the data for gives nothing.
    #[kani::unwind(6)]
    fn p13_count_too_large() {
        let count: u32 = any();
        assume(count > 2);
        let big: bool = any();
        let d = [1u8; 5];
        assert!(!is_some(E::with_data(SHORT, count, vec_of(&d)).uints(big)), "uints");
        assert!(!is_some(E::with_data(SSHORT, count, vec_of(&d)).ints(big)), "ints");
        assert!(!is_some(E::with_data(SHORT, count, vec_of(&d)).values::<u16>(big)), "values");
        cover!(count == 3);
        cover!(count == u32::MAX);
    }

    /// Float arrays.
    #[kani::unwind(20)]
    fn p13_array_float() {
        let d: [u8; 8] = any();
        let big: bool = any();
        let mut n = 0;
        while n < 4 {
            match E::with_data(FLOAT, n as u32, vec_of(&d)).floats(big) {
                Some(v) => {
                    assert!(n <= 2 && v.len() == n, "count");
                    let mut k = 0;
                    while k < n {
                        let f = f32::from_bits(u32_at(&d, k * 4, big)) as f64;
                        assert!(v[k] == f || f.is_nan(), "float");
                        k += 1;
                    }
                }
                None => assert!(n > 2, "no data"),
            }
            n += 1;
        }
        cover!(big);
    }

    #[kani::unwind(20)]
    fn p13_array_double() {
        let d: [u8; 16] = any();
        let big: bool = any();
        let mut n = 0;
        while n < 4 {
            match E::with_data(DOUBLE, n as u32, vec_of(&d)).floats(big) {
                Some(v) => {
                    assert!(n <= 2 && v.len() == n, "count");
                    let mut k = 0;
                    while k < n {
                        let (a, b) = (u32_at(&d, k * 8, big) as u64, u32_at(&d, k * 8 + 4, big) as u64);
                        assert!(v[k].to_bits() == if big { a << 32 | b } else { b << 32 | a }, "double");
                        k += 1;
                    }
                }
                None => assert!(n > 2, "no data"),
            }
            n += 1;
        }
        cover!(big);
    }

    #[kani::unwind(20)]
    fn p13_array_float_of_ints() {
        let d: [u8; 4] = any();
        let big: bool = any();
        let e = E::with_data(SHORT, 2, vec_of(&d));
        match e.floats(big) {
            Some(v) => assert!(v.len() == 2 && v[1] == u16_at(&d, 2, big) as f64, "value"),
            None => panic!("no value"),
        }
        assert!(!is_some(E::with_data(SSHORT, 1, vec_of(&d)).floats(big)), "type");
        cover!(big);
    }
}

fn is_some<T>(v: Option<T>) -> bool {
    let r = v.is_some();
    std::mem::forget(v);
    r
}

fn first(get: fn(&E, bool) -> Option<i64>, inline: bool) {
    let d: [u8; 8] = any();
    let count: u32 = any();
    let big: bool = any();
    // Types that the getter takes.
    let signed = get(&E::inline(SLONG, 1, [1, 1, 1, 1]), big).is_some();
    let mut typ = -1;
    while typ <= 14 {
        if typ != RATIONAL {
            let e = if inline {
                E::inline(typ, count, [d[0], d[1], d[2], d[3]])
            } else {
                E::with_data(typ, count, vec_of(&d))
            };
            let expected = if count == 0 {
                None
            } else if signed && typ == SSHORT {
                Some(u16_at(&d, 0, big) as i16 as i64)
            } else if signed && typ == SLONG {
                Some(u32_at(&d, 0, big) as i32 as i64)
            } else if !signed && typ == SHORT {
                Some(u16_at(&d, 0, big) as i64)
            } else if !signed && typ == LONG {
                Some(u32_at(&d, 0, big) as i64)
            } else {
                None
            };
            assert!(get(&e, big) == expected, "first value");
        }
        typ += 1;
    }
    cover!(count == 0);
    cover!(count == 3 && big);
}

fn uints(typ: i16, size: usize) {
    let d: [u8; 8] = any();
    let big: bool = any();
    let mut n = 0;
    while n < 6 {
        match E::with_data(typ, n as u32, vec_of(&d)).uints(big) {
            Some(v) => {
                assert!(n * size <= 8 && v.len() == n, "count");
                let mut k = 0;
                while k < n {
                    assert!(v[k] == if size == 2 { u16_at(&d, k * 2, big) as u32 } else { u32_at(&d, k * 4, big) }, "value");
                    k += 1;
                }
            }
            None => assert!(n * size > 8, "no value"),
        }
        n += 1;
    }
    cover!(big);
}

fn ints(typ: i16, size: usize) {
    let d: [u8; 8] = any();
    let big: bool = any();
    let mut n = 0;
    while n < 6 {
        match E::with_data(typ, n as u32, vec_of(&d)).ints(big) {
            Some(v) => {
                assert!(n * size <= 8 && v.len() == n, "count");
                let mut k = 0;
                while k < n {
                    assert!(v[k] == if size == 2 { u16_at(&d, k * 2, big) as i16 as i32 } else { u32_at(&d, k * 4, big) as i32 }, "value");
                    k += 1;
                }
            }
            None => assert!(n * size > 8, "no value"),
        }
        n += 1;
    }
    cover!(big);
}

fn values(typ: i16) {
    let d: [u8; 8] = any();
    let big: bool = any();
    let size = if typ == UNDEFINED { 1 } else { 2 };
    let mut n = 0;
    while n < 10 {
        match E::with_data(typ, n as u32, vec_of(&d)).values::<u16>(big) {
            Some(v) => {
                assert!(n * size / 2 <= 4 && v.len() == n * size / 2, "count");
                let mut k = 0;
                while k < v.len() {
                    assert!(v[k] == u16_at(&d, k * 2, big), "value");
                    k += 1;
                }
            }
            None => assert!(n * size > 8, "no value"),
        }
        n += if typ == UNDEFINED { 2 } else { 1 };
    }
    cover!(big);
}
