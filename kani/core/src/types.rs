//! Key types and generators shared by the key properties.
use bonsaidb_core::key::*;
use sym::*;

#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub enum Plain {
    A,
    B,
    C,
}

#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, enum_repr = u16)]
pub enum Fixed {
    A = 1,
    B = 300,
    C = 65535,
}

#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
#[repr(u8)]
pub enum Repr {
    A = 3,
    B = 127,
    C = 255,
}

/// All fields fixed width.
#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub struct Flat {
    pub a: u16,
    pub b: bool,
    pub c: u64,
}

#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub struct Pair(pub u8, pub u32);

/// Fixed and variable fields mixed.
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub struct Mixed {
    pub a: u8,
    pub b: Vec<u8>,
    pub c: u16,
}

#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, null_handling = allow)]
pub struct Allow {
    pub a: Vec<u8>,
    pub b: u16,
}

#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, null_handling = deny)]
pub struct Deny {
    pub a: Vec<u8>,
    pub b: u16,
}

/// An enum with payloads: every variant shape the derive macro supports.
#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub enum Payload {
    Unit,
    Tuple(u8, u16),
    Named { x: u32 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Num(pub u64);
impl num_traits::ToPrimitive for Num {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.0).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0)
    }
}
impl num_traits::FromPrimitive for Num {
    fn from_i64(n: i64) -> Option<Self> {
        u64::try_from(n).ok().map(Num)
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Num(n))
    }
}

pub fn plain() -> Plain {
    match any::<u8>() {
        0 => Plain::A,
        1 => Plain::B,
        _ => Plain::C,
    }
}
pub fn fixed() -> Fixed {
    match any::<u8>() {
        0 => Fixed::A,
        1 => Fixed::B,
        _ => Fixed::C,
    }
}
pub fn repr() -> Repr {
    match any::<u8>() {
        0 => Repr::A,
        1 => Repr::B,
        _ => Repr::C,
    }
}
pub fn flat() -> Flat {
    Flat {
        a: any(),
        b: any(),
        c: any(),
    }
}
pub fn payload() -> Payload {
    match any::<u8>() {
        0 => Payload::Unit,
        1 => Payload::Tuple(any(), any()),
        _ => Payload::Named { x: any() },
    }
}

/// Arbitrary byte string of exactly `N` bytes.
pub fn bytes<const N: usize>() -> Vec<u8> {
    arr::<N>().to_vec()
}

/// Arbitrary byte string of exactly `N` bytes without nul bytes.
pub fn nonul<const N: usize>() -> Vec<u8> {
    let a = arr::<N>();
    let mut i = 0;
    while i < N {
        assume(a[i] != 0);
        i += 1;
    }
    a.to_vec()
}
