//! Symbolic-input shim shared by every contract harness.
//!
//! Under Kani, `any::<T>()` is an unconstrained symbolic value and `assume`
//! restricts the explored domain.  Natively (used only to replay a verifier
//! counterexample on the real code, or to look for a witness after an
//! obligation failed) the same harness body runs with concrete values.

pub trait Sym: Copy {
    fn sym() -> Self;
}

#[cfg(kani)]
mod imp {
    macro_rules! prim { ($($t:ty),*) => { $(
        impl super::Sym for $t { #[inline(always)] fn sym() -> Self { kani::any() } }
    )* } }
    prim!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, bool);
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    /// Panic payload for "precondition not met, try another input".
    pub struct Rejected;

    pub enum Source {
        None,
        Replay(VecDeque<Vec<u8>>),
        Random(u64),
    }
    thread_local! {
        pub static SOURCE: RefCell<Source> = RefCell::new(Source::None);
        pub static LOG: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
    }
    fn next_u64(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn draw(n: usize) -> Vec<u8> {
        let v = SOURCE.with(|s| match &mut *s.borrow_mut() {
            Source::None => panic!("no input source"),
            Source::Replay(q) => {
                let mut b = q.pop_front().unwrap_or_default();
                b.resize(n, 0);
                b
            }
            Source::Random(seed) => {
                // Biased towards boundary values.
                let kind = next_u64(seed) % 8;
                let mut b = vec![0u8; n];
                match kind {
                    0 => {}
                    1 => b.iter_mut().for_each(|x| *x = 0xff),
                    2 => {
                        b.iter_mut().for_each(|x| *x = 0xff);
                        b[n - 1] = 0x7f;
                    }
                    3 => b[n - 1] = 0x80,
                    4 => b[0] = (next_u64(seed) % 8) as u8,
                    5 => {
                        let bit = (next_u64(seed) as usize) % (8 * n);
                        b[bit / 8] = 1 << (bit % 8);
                        if next_u64(seed) & 1 == 1 {
                            // 2^k - 1
                            let v = b.clone();
                            let mut borrow = 1u8;
                            for (i, x) in v.iter().enumerate() {
                                let (r, o) = x.overflowing_sub(borrow);
                                b[i] = r;
                                borrow = o as u8;
                            }
                        }
                    }
                    _ => {
                        let keep = 1 + (next_u64(seed) as usize) % n;
                        for x in b.iter_mut().take(keep) {
                            *x = next_u64(seed) as u8;
                        }
                    }
                }
                b
            }
        });
        LOG.with(|l| l.borrow_mut().push(v.clone()));
        v
    }
    macro_rules! prim { ($($t:ty),*) => { $(
        impl super::Sym for $t {
            fn sym() -> Self {
                let b = draw(std::mem::size_of::<$t>());
                <$t>::from_le_bytes(b.try_into().unwrap())
            }
        }
    )* } }
    prim!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
    impl super::Sym for bool {
        fn sym() -> Self {
            draw(1)[0] & 1 == 1
        }
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Rejected);
        }
    }
}

pub use imp::*;

#[inline(always)]
pub fn any<T: Sym>() -> T {
    T::sym()
}

/// Arbitrary value in `lo..hi` (half open).
#[inline(always)]
pub fn below(hi: usize) -> usize {
    #[cfg(kani)]
    {
        let v: usize = any();
        assume(v < hi);
        v
    }
    #[cfg(not(kani))]
    {
        let replaying = SOURCE.with(|s| matches!(&*s.borrow(), Source::Replay(_)));
        let v: usize = any();
        if replaying {
            assume(v < hi);
            v
        } else {
            let r = v % hi;
            LOG.with(|l| *l.borrow_mut().last_mut().unwrap() = r.to_le_bytes().to_vec());
            r
        }
    }
}

pub fn arr<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = any();
        i += 1;
    }
    a
}

/// A byte string of arbitrary length `0..=N` with arbitrary contents.
pub struct Bytes<const N: usize> {
    a: [u8; N],
    len: usize,
}
impl<const N: usize> Bytes<N> {
    pub fn any() -> Self {
        let a = arr::<N>();
        let len = below(N + 1);
        Self { a, len }
    }
    pub fn get(&self) -> &[u8] {
        &self.a[..self.len]
    }
}

/// Arbitrary Unicode scalar value.
pub fn any_char() -> char {
    let v: u32 = any();
    #[cfg(kani)]
    {
        assume(v < 0xD800 || (0xE000..=0x10FFFF).contains(&v));
        // SAFETY: exactly the valid scalar values remain.
        unsafe { char::from_u32_unchecked(v) }
    }
    #[cfg(not(kani))]
    {
        match char::from_u32(v) {
            Some(c) => c,
            None => {
                let v = v % 0x80;
                LOG.with(|l| *l.borrow_mut().last_mut().unwrap() = v.to_le_bytes().to_vec());
                char::from_u32(v).unwrap()
            }
        }
    }
}

/// `n` bytes of arbitrary content drawn from one seed (native only).
#[cfg(not(kani))]
pub fn noise(n: usize) -> Vec<u8> {
    let mut s: u64 = any();
    let style = s % 3;
    (0..n)
        .map(|_| {
            s = s.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(0x1405_7B7E_F767_814F);
            let r = (s >> 33) as u32;
            match style {
                0 => r as u8,
                1 => [0, 0, 1, 0xff, 0x7f, 0x80, b'a', 0x7e][(r % 8) as usize],
                _ => (r % 3) as u8,
            }
        })
        .collect()
}
/// `n` arbitrary characters of every UTF-8 width (native only).
#[cfg(not(kani))]
pub fn chars(n: usize) -> String {
    let mut s: u64 = any();
    (0..n)
        .map(|_| {
            s = s.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(0x1405_7B7E_F767_814F);
            let r = (s >> 33) as u32;
            let c = match r % 8 {
                0 => r / 8 % 0x80,
                1 => 0x80 + r / 8 % 0x780,
                2 => 0x800 + r / 8 % 0xd000,
                3 => 0xe000 + r / 8 % 0x2000,
                4 => 0x10000 + r / 8 % 0x100000,
                5 => [0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff][(r / 8 % 10) as usize],
                _ => 0x20 + r / 8 % 0x5f,
            };
            char::from_u32(c).unwrap()
        })
        .collect()
}

#[cfg(kani)]
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        kani::cover!($c, $m)
    };
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        let _ = $c;
    };
}

/// Declares contract harnesses: `name [unwind] { body }`.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident [$u:literal] $body:block )*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($u)]
            $(#[$m])*
            fn $name() $body
            #[cfg(not(kani))]
            fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), $name as fn())),*]
        }
    };
}

/// Bounded stand-ins: contract checks run natively on the real code, for
/// functions outside the verifier's reach.  `name [n] {..}` draws at most `n`
/// random inputs; n = 1 marks a body that enumerates its whole domain itself;
/// n = 0 marks the concrete witness of a recorded finding.
#[macro_export]
macro_rules! bounded {
    ($( $name:ident [$n:literal] $body:block )*) => {
        $(
            #[cfg(not(kani))]
            fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn bounded_table() -> Vec<(&'static str, u64, fn())> {
            vec![$((stringify!($name), $n, $name as fn())),*]
        }
    };
}

#[cfg(not(kani))]
pub mod runner {
    use super::*;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    fn hex(v: &[u8]) -> String {
        v.iter().map(|b| format!("{b:02x}")).collect()
    }

    enum Outcome {
        Pass,
        Rejected,
        Fail(String),
    }

    fn one(f: fn()) -> Outcome {
        LOG.with(|l| l.borrow_mut().clear());
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => Outcome::Pass,
            Err(e) if e.is::<Rejected>() => Outcome::Rejected,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                // The sandbox ran out of threads, memory, files or space.
                const ENVIRONMENT: [&str; 4] = ["Resource temporarily unavailable", "Cannot allocate memory", "Too many open files", "No space left on device"];
                if ENVIRONMENT.iter().any(|e| m.contains(e)) {
                    std::thread::sleep(std::time::Duration::from_millis(200));
                    return Outcome::Rejected;
                }
                Outcome::Fail(m)
            }
        }
    }

    fn run(f: fn(), seed: u64, secs: f64, max: u64) -> Result<(u64, u64), String> {
        let start = std::time::Instant::now();
        let (mut ran, mut i) = (0u64, 0u64);
        while ran < max && start.elapsed().as_secs_f64() < secs {
            i += 1;
            SOURCE.with(|s| {
                *s.borrow_mut() = Source::Random(
                    seed.wrapping_mul(0x2545_F491_4F6C_DD1D).wrapping_add(i << 20),
                )
            });
            match one(f) {
                Outcome::Pass => ran += 1,
                Outcome::Rejected => {}
                Outcome::Fail(m) => {
                    let log = LOG.with(|l| l.borrow().iter().map(|b| hex(b)).collect::<Vec<_>>().join(","));
                    return Err(format!("{} {}", if log.is_empty() { "-".into() } else { log }, m.replace('\n', " ")));
                }
            }
        }
        Ok((ran, i))
    }

    /// `list`; `replay <harness> <hex,hex,..>`; `search <harness> <seed> <secs>`;
    /// `bounded <seed> <secs per entry> <multiple> [<entry>]`.  Exit 3: failed on the printed input.
    pub fn main(table: Vec<(&'static str, fn())>, bounded: Vec<(&'static str, u64, fn())>) -> ! {
        if std::env::var_os("VK_TRACE").is_none() { std::panic::set_hook(Box::new(|_| {})); }
        let args: Vec<String> = std::env::args().collect();
        let find = |name: &str| -> fn() {
            table
                .iter()
                .map(|(n, f)| (*n, *f))
                .chain(bounded.iter().map(|(n, _, f)| (*n, *f)))
                .find(|(n, _)| *n == name)
                .unwrap_or_else(|| panic!("no harness {name}"))
                .1
        };
        match args[1].as_str() {
            "list" => {
                for (n, _) in &table {
                    println!("{n}");
                }
                for (n, _, _) in &bounded {
                    println!("bounded {n}");
                }
                std::process::exit(0)
            }
            "replay" => {
                let q = args
                    .get(3)
                    .map(|s| {
                        s.split(',')
                            .filter(|x| !x.is_empty() && *x != "-")
                            .map(|h| {
                                (0..h.len() / 2)
                                    .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                                    .collect()
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                SOURCE.with(|s| *s.borrow_mut() = Source::Replay(q));
                match one(find(&args[2])) {
                    Outcome::Pass => {
                        println!("PASS");
                        std::process::exit(0)
                    }
                    Outcome::Rejected => {
                        println!("REJECTED");
                        std::process::exit(0)
                    }
                    Outcome::Fail(m) => {
                        println!("FAIL {m}");
                        std::process::exit(3)
                    }
                }
            }
            "search" => match run(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap(), u64::MAX) {
                Ok((ran, i)) => {
                    println!("PASS {ran} of {i}");
                    std::process::exit(0)
                }
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(3)
                }
            },
            "bounded" => {
                let mut bad = false;
                for (name, max, f) in &bounded {
                    if args.get(5).map_or(false, |only| only != name) {
                        continue;
                    }
                    let t = std::time::Instant::now();
                    println!("START {name}");
                    if *max == 0 {
                        // Witness of a recorded finding.
                        SOURCE.with(|s| *s.borrow_mut() = Source::Replay(Default::default()));
                        match one(*f) {
                            Outcome::Fail(m) => println!("KNOWN {name} FAIL {}", m.replace('\n', " ")),
                            _ => println!("KNOWN {name} PASS"),
                        }
                        continue;
                    }
                    let mult: u64 = args.get(4).map_or(1, |m| m.parse().unwrap());
                    let max = if *max == 1 { 1 } else { *max * mult };
                    match run(*f, args[2].parse().unwrap(), args[3].parse().unwrap(), max) {
                        Ok((ran, _)) => println!("BOUNDED {name} PASS {ran} {:.2}", t.elapsed().as_secs_f64()),
                        Err(m) => {
                            bad = true;
                            println!("BOUNDED {name} FAIL {m}")
                        }
                    }
                }
                std::process::exit(if bad { 3 } else { 0 })
            }
            _ => panic!("usage"),
        }
    }
}
