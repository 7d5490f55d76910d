//! Element types. Besides f32/f64 the monitors run the real code over
//! instrumented numbers: every arithmetic operation of the transform is then an
//! observation point (counting, yielding, fault injection, integrity shadowing).
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use rustfft::FftNum;
use std::cell::Cell;
use std::ops::*;

pub trait Hn: FftNum {
    const NAME: &'static str;
    const EPS: f64;
    fn f(v: f64) -> Self;
    fn d(self) -> f64;
    fn bits(self) -> u64 {
        self.d().to_bits()
    }
}
impl Hn for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn f(v: f64) -> Self { v as f32 }
    fn d(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
}
impl Hn for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn f(v: f64) -> Self { v }
    fn d(self) -> f64 { self }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Add, Mul, Neg }

thread_local! {
    pub static OPS_ADD: Cell<u64> = const { Cell::new(0) };
    pub static OPS_MUL: Cell<u64> = const { Cell::new(0) };
    /// operations left until a Bomb number panics (0 = disarmed)
    pub static FUSE: Cell<u64> = const { Cell::new(0) };
    pub static YLD: Cell<u64> = const { Cell::new(0) };
    pub static YIELDS: Cell<u64> = const { Cell::new(0) };
    /// integrity violations seen by Fat numbers
    pub static FAT_BAD: Cell<u64> = const { Cell::new(0) };
}
pub const BOMB_MSG: &str = "dhtmon injected arithmetic panic";

macro_rules! newtype_num {
    ($t:ident, $name:expr, $eps:expr, $mk:expr, $get:expr, $hook:expr) => {
        impl $t {
            #[inline] fn mk(v: f64) -> Self { ($mk)(v) }
            #[inline] fn get(self) -> f64 { ($get)(self) }
        }
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
        impl Add for $t { type Output = Self; #[inline] fn add(self, o: Self) -> Self { ($hook)(Op::Add); Self::mk(self.get() + o.get()) } }
        impl Sub for $t { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { ($hook)(Op::Add); Self::mk(self.get() - o.get()) } }
        impl Mul for $t { type Output = Self; #[inline] fn mul(self, o: Self) -> Self { ($hook)(Op::Mul); Self::mk(self.get() * o.get()) } }
        impl Div for $t { type Output = Self; #[inline] fn div(self, o: Self) -> Self { ($hook)(Op::Mul); Self::mk(self.get() / o.get()) } }
        impl Rem for $t { type Output = Self; #[inline] fn rem(self, o: Self) -> Self { ($hook)(Op::Mul); Self::mk(self.get() % o.get()) } }
        impl Neg for $t { type Output = Self; #[inline] fn neg(self) -> Self { ($hook)(Op::Neg); Self::mk(-self.get()) } }
        impl Zero for $t { fn zero() -> Self { Self::mk(0.0) } fn is_zero(&self) -> bool { self.get() == 0.0 } }
        impl One for $t { fn one() -> Self { Self::mk(1.0) } }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(s: &str, _: u32) -> Result<Self, ()> { s.parse::<f64>().map(Self::mk).map_err(|_| ()) }
        }
        impl Signed for $t {
            fn abs(&self) -> Self { Self::mk(self.get().abs()) }
            fn abs_sub(&self, o: &Self) -> Self { let d = self.get() - o.get(); Self::mk(if d > 0.0 { d } else { 0.0 }) }
            fn signum(&self) -> Self { Self::mk(self.get().signum()) }
            fn is_positive(&self) -> bool { self.get() > 0.0 }
            fn is_negative(&self) -> bool { self.get() < 0.0 }
        }
        impl FromPrimitive for $t {
            fn from_i64(n: i64) -> Option<Self> { Some(Self::mk(n as f64)) }
            fn from_u64(n: u64) -> Option<Self> { Some(Self::mk(n as f64)) }
            fn from_f32(n: f32) -> Option<Self> { Some(Self::mk(n as f64)) }
            fn from_f64(n: f64) -> Option<Self> { Some(Self::mk(n)) }
        }
        impl Hn for $t {
            const NAME: &'static str = $name;
            const EPS: f64 = $eps;
            fn f(v: f64) -> Self { Self::mk(v) }
            fn d(self) -> f64 { self.get() }
        }
    };
}

/// counts arithmetic
#[derive(Clone, Copy, Debug)]
pub struct Cnt(f64);
newtype_num!(Cnt, "cnt", f64::EPSILON, |v| Cnt(v), |s: Cnt| s.0, |op| match op {
    Op::Mul => OPS_MUL.with(|c| c.set(c.get() + 1)),
    _ => OPS_ADD.with(|c| c.set(c.get() + 1)),
});

/// yields the processor at pseudo-random operations (schedule noise inside the arithmetic)
#[derive(Clone, Copy, Debug)]
pub struct Yld(f64);
newtype_num!(Yld, "yld", f64::EPSILON, |v| Yld(v), |s: Yld| s.0, |_op| yield_hook());
fn yield_hook() {
    YLD.with(|c| {
        let x = c.get();
        if x == 0 { return; }
        let x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        c.set(x | 1);
        match x >> 56 {
            0 => { YIELDS.with(|y| y.set(y.get() + 1)); std::thread::yield_now() }
            1 => { YIELDS.with(|y| y.set(y.get() + 1)); for _ in 0..200 { std::hint::spin_loop() } }
            _ => {}
        }
    });
}

/// panics when the fuse runs out (fault injection inside the arithmetic)
#[derive(Clone, Copy, Debug)]
pub struct Bomb(f64);
newtype_num!(Bomb, "bomb", f64::EPSILON, |v| Bomb(v), |s: Bomb| s.0, |_op| {
    FUSE.with(|c| {
        let x = c.get();
        if x > 0 {
            c.set(x - 1);
            if x == 1 { panic!("{}", BOMB_MSG) }
        }
    })
});

/// 96 bytes, 32-aligned, every value carries a redundant copy: torn, reinterpreted or byte-shifted
/// elements are detected at their next use.
#[repr(C, align(32))]
#[derive(Clone, Copy, Debug)]
pub struct Fat { v: f64, pad: [u64; 5], chk: u64, tail: [u8; 24] }
const FAT_MAGIC: u64 = 0xA5C3_17E9_5D2B_8F41;
impl Fat {
    pub fn ok(&self) -> bool { self.chk == self.v.to_bits() ^ FAT_MAGIC && self.tail == [0x5A; 24] && self.pad == [7; 5] }
}
newtype_num!(Fat, "fat", f64::EPSILON,
    |v: f64| Fat { v, pad: [7; 5], chk: v.to_bits() ^ FAT_MAGIC, tail: [0x5A; 24] },
    |s: Fat| { if !s.ok() { FAT_BAD.with(|c| c.set(c.get() + 1)) } s.v },
    |_op| ());

/// 4 bytes, alignment 1, not laid out like an f32 (big endian, masked: zero is not all-zero bits)
#[repr(C, packed)]
#[derive(Clone, Copy, Debug)]
pub struct Byte4([u8; 4]);
newtype_num!(Byte4, "byte4", f32::EPSILON as f64,
    |v: f64| Byte4(((v as f32).to_bits() ^ 0x3C5A_96E7).to_be_bytes()),
    |s: Byte4| f32::from_bits(u32::from_be_bytes(s.0) ^ 0x3C5A_96E7) as f64,
    |_op| ());

/// 8 bytes, alignment 8, not laid out like an f64
#[derive(Clone, Copy, Debug)]
pub struct Swp8(u64);
newtype_num!(Swp8, "swp8", f64::EPSILON,
    |v: f64| Swp8(v.to_bits().swap_bytes() ^ 0x9E37_79B9_7F4A_7C15),
    |s: Swp8| f64::from_bits((s.0 ^ 0x9E37_79B9_7F4A_7C15).swap_bytes()),
    |_op| ());

/// 16 bytes, alignment 16, with a check word in front
#[repr(C, align(16))]
#[derive(Clone, Copy, Debug)]
pub struct Tag16 { chk: u64, v: u64 }
newtype_num!(Tag16, "tag16", f64::EPSILON,
    |v: f64| Tag16 { chk: v.to_bits() ^ FAT_MAGIC, v: !v.to_bits() },
    |s: Tag16| { if s.chk != !s.v ^ FAT_MAGIC { FAT_BAD.with(|c| c.set(c.get() + 1)) } f64::from_bits(!s.v) },
    |_op| ());

/// 3 x 4 bytes: value as the sum of three singles, in an odd size that is no power of two
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Tri12 { lo: f32, mid: f32, hi: f32 }
newtype_num!(Tri12, "tri12", 4.0 * f64::EPSILON,
    |v: f64| {
        let hi = v as f32;
        if !hi.is_finite() { return Tri12 { lo: 0.0, mid: 0.0, hi } }
        let mid = (v - hi as f64) as f32;
        Tri12 { lo: (v - hi as f64 - mid as f64) as f32, mid, hi }
    },
    |s: Tri12| s.hi as f64 + (s.mid as f64 + s.lo as f64),
    |_op| ());

/// 9 bytes, alignment 1, the value at an odd offset behind a tag
#[repr(C, packed)]
#[derive(Clone, Copy, Debug)]
pub struct Odd9 { tag: u8, v: [u8; 8] }
newtype_num!(Odd9, "odd9", f64::EPSILON,
    |v: f64| Odd9 { tag: 0xD3, v: v.to_be_bytes() },
    |s: Odd9| { if s.tag != 0xD3 { FAT_BAD.with(|c| c.set(c.get() + 1)) } f64::from_be_bytes(s.v) },
    |_op| ());

/// dual number v + e*dv (automatic differentiation); a linear transform must act on both parts alike
#[derive(Clone, Copy, Debug)]
pub struct Dual { pub v: f64, pub e: f64 }
impl PartialEq for Dual { fn eq(&self, o: &Self) -> bool { self.v == o.v && self.e == o.e } }
impl Add for Dual { type Output = Self; fn add(self, o: Self) -> Self { Dual { v: self.v + o.v, e: self.e + o.e } } }
impl Sub for Dual { type Output = Self; fn sub(self, o: Self) -> Self { Dual { v: self.v - o.v, e: self.e - o.e } } }
impl Mul for Dual { type Output = Self; fn mul(self, o: Self) -> Self { Dual { v: self.v * o.v, e: self.v * o.e + self.e * o.v } } }
impl Div for Dual { type Output = Self; fn div(self, o: Self) -> Self { Dual { v: self.v / o.v, e: (self.e * o.v - self.v * o.e) / (o.v * o.v) } } }
impl Rem for Dual { type Output = Self; fn rem(self, o: Self) -> Self { Dual { v: self.v % o.v, e: self.e } } }
impl Neg for Dual { type Output = Self; fn neg(self) -> Self { Dual { v: -self.v, e: -self.e } } }
impl Zero for Dual { fn zero() -> Self { Dual { v: 0.0, e: 0.0 } } fn is_zero(&self) -> bool { self.v == 0.0 && self.e == 0.0 } }
impl One for Dual { fn one() -> Self { Dual { v: 1.0, e: 0.0 } } }
impl Num for Dual { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> { Err(()) } }
impl Signed for Dual {
    fn abs(&self) -> Self { if self.v < 0.0 { -*self } else { *self } }
    fn abs_sub(&self, o: &Self) -> Self { if self.v > o.v { *self - *o } else { Self::zero() } }
    fn signum(&self) -> Self { Dual { v: self.v.signum(), e: 0.0 } }
    fn is_positive(&self) -> bool { self.v > 0.0 }
    fn is_negative(&self) -> bool { self.v < 0.0 }
}
impl FromPrimitive for Dual {
    fn from_i64(n: i64) -> Option<Self> { Some(Dual { v: n as f64, e: 0.0 }) }
    fn from_u64(n: u64) -> Option<Self> { Some(Dual { v: n as f64, e: 0.0 }) }
    fn from_f32(n: f32) -> Option<Self> { Some(Dual { v: n as f64, e: 0.0 }) }
    fn from_f64(n: f64) -> Option<Self> { Some(Dual { v: n, e: 0.0 }) }
}
impl Hn for Dual {
    const NAME: &'static str = "dual";
    const EPS: f64 = f64::EPSILON;
    fn f(v: f64) -> Self { Dual { v, e: 0.0 } }
    fn d(self) -> f64 { self.v }
}

/// element types of chosen size and alignment whose bytes mean nothing to anyone but themselves: the value sits masked in the
/// last 8 (4, 2) bytes, the rest is filler that is checked at every use
macro_rules! sized_num {
    ($t:ident, $name:expr, $size:literal, $al:literal) => {
        #[repr(C, align($al))]
        #[derive(Clone, Copy, Debug)]
        pub struct $t([u8; $size]);
        newtype_num!($t, $name, if $size >= 8 { f64::EPSILON } else if $size >= 4 { f32::EPSILON as f64 } else { 1.0 / 128.0 },
            |v: f64| {
                let mut b = [0xC9u8; $size];
                if $size >= 8 { for (i, x) in (v.to_bits() ^ FAT_MAGIC).to_be_bytes().iter().enumerate() { b[($size as usize).wrapping_sub(8).wrapping_add(i)] = *x; } }
                else if $size >= 4 { for (i, x) in ((v as f32).to_bits() ^ 0x3C5A_96E7).to_be_bytes().iter().enumerate() { b[($size as usize).wrapping_sub(4).wrapping_add(i)] = *x; } }
                else {
                    let f = v as f32;
                    let h = if f.is_nan() { 0x7FC0u16 } else { ((f.to_bits() + 0x7FFF + ((f.to_bits() >> 16) & 1)) >> 16) as u16 } ^ 0x5A3C;
                    for (i, x) in h.to_be_bytes().iter().enumerate() { b[($size as usize).wrapping_sub(2).wrapping_add(i)] = *x; }
                }
                $t(b)
            },
            |s: $t| {
                let n: usize = $size;
                let w = if n >= 8 { 8 } else if n >= 4 { 4 } else { 2 };
                if s.0[..n - w].iter().any(|x| *x != 0xC9) { FAT_BAD.with(|c| c.set(c.get() + 1)) }
                let mut v = 0u64;
                for x in &s.0[n - w..] { v = v << 8 | *x as u64; }
                match w { 8 => f64::from_bits(v ^ FAT_MAGIC), 4 => f32::from_bits(v as u32 ^ 0x3C5A_96E7) as f64, _ => f32::from_bits(((v as u32) ^ 0x5A3C) << 16) as f64 }
            },
            |_op| ());
    };
}
sized_num!(S2a1, "s2a1", 2, 1);
sized_num!(S2a2, "s2a2", 2, 2);
sized_num!(S3a1, "s3a1", 3, 1);
sized_num!(Notf32, "s4a4", 4, 4);
sized_num!(S4a2, "s4a2", 4, 2);
sized_num!(S6a2, "s6a2", 6, 2);
sized_num!(Notf64, "s8a8", 8, 8);
sized_num!(S8a4, "s8a4", 8, 4);
sized_num!(S8a1, "s8a1", 8, 1);
sized_num!(S10a2, "s10a2", 10, 2);
sized_num!(S12a4, "s12a4", 12, 4);
sized_num!(S16a16, "s16a16", 16, 16);
sized_num!(S16a8, "s16a8", 16, 8);
sized_num!(S16a4, "s16a4", 16, 4);
sized_num!(S16a1, "s16a1", 16, 1);
sized_num!(S24a8, "s24a8", 24, 8);
sized_num!(S32a32, "s32a32", 32, 32);
sized_num!(S32a16, "s32a16", 32, 16);
sized_num!(S32a8, "s32a8", 32, 8);
sized_num!(S64a64, "s64a64", 64, 64);
sized_num!(S64a8, "s64a8", 64, 8);
sized_num!(S256a128, "s256a128", 256, 128);
