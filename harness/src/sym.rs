//! Symbolic values. Under Kani they are `kani::any()`; natively they are read
//! from the byte stream of a counterexample, so that the very same harness
//! replays it against the real build.

#[cfg(kani)]
mod imp {
    pub trait Sym: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Sym for T {}
    #[inline(always)]
    pub fn any<T: Sym>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    /// Payload of the panic of an assumption that does not hold.
    pub struct Unmet;
    struct Stream {
        bytes: Vec<u8>,
        pos: usize,
        rng: Option<(u64, u8)>,
    }
    thread_local! {
        static STREAM: RefCell<Stream> =
            const { RefCell::new(Stream { bytes: Vec::new(), pos: 0, rng: None }) };
    }
    pub fn load(bytes: Vec<u8>) {
        STREAM.with(|s| *s.borrow_mut() = Stream { bytes, pos: 0, rng: None });
    }
    /// Pseudo random values. `mode` biases them toward small ones.
    pub fn load_random(seed: u64, mode: u8) {
        STREAM.with(|s| {
            *s.borrow_mut() = Stream { bytes: Vec::new(), pos: 0, rng: Some((seed | 1, mode)) }
        });
    }
    fn take(n: usize, scalar: bool) -> Vec<u8> {
        STREAM.with(|s| {
            let mut s = s.borrow_mut();
            if let Some((mut x, mode)) = s.rng {
                let mut v = Vec::with_capacity(n);
                let mut r = || {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u32
                };
                let small = scalar && mode != 0 && r() % 4 != 0;
                for i in 0..n {
                    let b = r();
                    v.push(match mode {
                        _ if small && i > 0 => 0,
                        1 if small => (b % 4) as u8,
                        2 if small => (b % 24) as u8,
                        3 if !scalar && r() % 3 == 0 => 0,
                        _ => b as u8,
                    });
                }
                s.rng = Some((x, mode));
                return v;
            }
            let p = s.pos;
            let mut v: Vec<u8> = s.bytes.iter().skip(p).take(n).cloned().collect();
            v.resize(n, 0);
            s.pos += n;
            v
        })
    }
    pub trait Sym: Sized {
        fn sym() -> Self;
    }
    macro_rules! ints {
        ($($t:ty),*) => {$(
            impl Sym for $t {
                fn sym() -> Self {
                    let n = std::mem::size_of::<$t>();
                    let v = take(n, n > 1);
                    <$t>::from_le_bytes(v.as_slice().try_into().unwrap())
                }
            }
        )*};
    }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
    impl Sym for bool {
        fn sym() -> Self {
            u8::sym() & 1 == 1
        }
    }
    impl<T: Sym, const N: usize> Sym for [T; N] {
        fn sym() -> Self {
            std::array::from_fn(|_| T::sym())
        }
    }
    pub fn any<T: Sym>() -> T {
        T::sym()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Unmet);
        }
    }
}

pub use imp::*;

/// An arbitrary value no greater than `max`.
#[inline(always)]
pub fn upto(max: usize) -> usize {
    let n: usize = any();
    assume(n <= max);
    n
}

/// An arbitrary value in `lo..=hi`.
#[inline(always)]
pub fn within(lo: usize, hi: usize) -> usize {
    let n: usize = any();
    assume(n >= lo && n <= hi);
    n
}

/// Reachability witness: Kani must find it satisfiable.
#[macro_export]
macro_rules! cover {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::cover!($c);
        #[cfg(not(kani))]
        let _ = $c;
    }};
    () => {
        $crate::cover!(true)
    };
}

/// A file in memory. (`Cursor` copies blocks of symbolic sizes.)
#[derive(Debug)]
pub struct Mem<const N: usize> {
    pub d: [u8; N],
    pub len: usize,
    pub pos: u64,
}

impl<const N: usize> Mem<N> {
    pub fn new(d: [u8; N]) -> Mem<N> {
        Mem { d, len: N, pos: 0 }
    }
}

impl<const N: usize> std::io::Read for Mem<N> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.pos < self.len as u64 {
            buf[n] = self.d[self.pos as usize];
            n += 1;
            self.pos += 1;
        }
        Ok(n)
    }
}

impl<const N: usize> std::io::Seek for Mem<N> {
    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match pos {
            std::io::SeekFrom::Start(p) => Some(p),
            std::io::SeekFrom::End(o) => (self.len as u64).checked_add_signed(o),
            std::io::SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        };
        match to {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}

/// A file in memory that reads words of up to 8 bytes, whole, without loops.
#[derive(Debug)]
pub struct Words<const N: usize> {
    pub d: [u8; N],
    pub len: usize,
    pub pos: u64,
}

impl<const N: usize> Words<N> {
    pub fn new(d: [u8; N], len: usize) -> Words<N> {
        Words { d, len, pos: 0 }
    }
}

impl<const N: usize> std::io::Read for Words<N> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len();
        assert!(n <= 8, "reads words");
        if self.pos > self.len as u64 || n as u64 > self.len as u64 - self.pos {
            return Ok(0);
        }
        let p = self.pos as usize;
        if n > 0 { buf[0] = self.d[p]; }
        if n > 1 { buf[1] = self.d[p + 1]; }
        if n > 2 { buf[2] = self.d[p + 2]; }
        if n > 3 { buf[3] = self.d[p + 3]; }
        if n > 4 { buf[4] = self.d[p + 4]; }
        if n > 5 { buf[5] = self.d[p + 5]; }
        if n > 6 { buf[6] = self.d[p + 6]; }
        if n > 7 { buf[7] = self.d[p + 7]; }
        self.pos += n as u64;
        Ok(n)
    }
}

impl<const N: usize> std::io::Seek for Words<N> {
    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match pos {
            std::io::SeekFrom::Start(p) => Some(p),
            std::io::SeekFrom::End(o) => (self.len as u64).checked_add_signed(o),
            std::io::SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        };
        match to {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}

/// Messages aren't modelled.
#[cfg(kani)]
pub fn no_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// Texts are assumed to be ASCII.
#[cfg(kani)]
pub fn lossy(v: &[u8]) -> std::borrow::Cow<'_, str> {
    std::borrow::Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(v) })
}

/// Readers over memory read all there is, and aren't interrupted.
#[cfg(kani)]
pub fn read_all<R: std::io::Read + ?Sized>(r: &mut R, buf: &mut [u8]) -> std::io::Result<()> {
    match r.read(buf) {
        Ok(n) if n == buf.len() => Ok(()),
        Ok(_) => Err(std::io::ErrorKind::UnexpectedEof.into()),
        Err(e) => Err(e),
    }
}

/// Declares the harnesses of a module. Each becomes a Kani proof and an
/// entry of the replay registry.
#[macro_export]
macro_rules! proofs {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(std::fmt::format, crate::sym::no_format))]
            #[cfg_attr(kani, kani::stub(alloc::io::read::default_read_exact, crate::sym::read_all))]
            $(#[cfg_attr(kani, $m)])*
            #[allow(dead_code)]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()), )* ];
    };
}

/// The value of a result that must not be an error. (No `unwrap()`: it would
/// drag the error formatting into the model.)
#[inline(always)]
pub fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            std::mem::forget(e);
            panic!("unexpected error")
        }
    }
}

/// Whether a result is an error.
#[inline(always)]
pub fn is_err<T, E>(r: Result<T, E>) -> bool {
    match r {
        Ok(v) => {
            std::mem::forget(v);
            false
        }
        Err(e) => {
            std::mem::forget(e);
            true
        }
    }
}
