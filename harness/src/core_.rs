//! Vocabulary shared by every contract: the symbolic machine, the
//! specification functions taken from the CPUID manuals, and the nondeterminism
//! source (the verifier's under Kani, a recorded byte string in native replay).

pub use raw_cpuid::CpuIdResult;
use raw_cpuid::{CpuId, CpuIdReader};

// ---------------------------------------------------------------- nondet ---

#[cfg(kani)]
pub fn any_u32() -> u32 {
    kani::any()
}

#[cfg(not(kani))]
pub mod tape {
    //! Values of a counterexample, consumed in the order the verifier drew them;
    //! or, in a search for one, drawn from a generator and recorded.
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static TAPE: RefCell<VecDeque<u32>> = RefCell::new(VecDeque::new());
        pub static SEARCH: RefCell<Option<(u64, Vec<u32>)>> = RefCell::new(None);
    }
    /// Panic payload: the values do not meet the contract's precondition.
    pub struct Unmet;
    pub fn load(v: Vec<u32>) {
        TAPE.with(|t| *t.borrow_mut() = v.into());
    }
    pub fn search(seed: u64) {
        SEARCH.with(|s| *s.borrow_mut() = Some((seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1, Vec::new())));
    }
    pub fn drawn() -> Vec<u32> {
        SEARCH.with(|s| s.borrow().as_ref().map(|x| x.1.clone()).unwrap_or_default())
    }
    pub fn next() -> u32 {
        SEARCH.with(|s| match s.borrow_mut().as_mut() {
            None => TAPE.with(|t| t.borrow_mut().pop_front()).unwrap_or(0),
            Some((x, out)) => {
                *x ^= *x << 13;
                *x ^= *x >> 7;
                *x ^= *x << 17;
                let r = (*x >> 32) as u32;
                // Most contracts draw leaf 0 first, then leaf 0x8000_0000.
                const VENDORS: [[u32; 3]; 3] = [
                    [0x756e_6547, 0x6c65_746e, 0x4965_6e69],
                    [0x6874_7541, 0x444d_4163, 0x6974_6e65],
                    [0x6f67_7948, 0x656e_6975, 0x6e65_476e],
                ];
                let seed = out.first().map_or(r, |v| *v) % 4;
                let v = match *x % 12 {
                    _ if (1..4).contains(&out.len()) && seed < 3 => VENDORS[seed as usize][out.len() - 1],
                    _ if out.len() == 4 && r & 3 != 0 => 0x8000_0000 | r & 0x3f,
                    5 => r & 0x7f7f_7f7f,
                    6 => (r & 0x1f1f_1f1f) + 0x4040_4040,
                    7 => (r & 0x4141_4141).max(0x2041_2000),
                    8 => 0x2020_2020 >> (r & 24),
                    0 => r & 7,
                    1 => 1 << (r & 31),
                    2 => u32::MAX << (r & 31),
                    3 => r & 0xffff,
                    4 => u32::MAX >> (r & 31),
                    _ => r,
                };
                out.push(v);
                v
            }
        })
    }
}

#[cfg(not(kani))]
pub fn any_u32() -> u32 {
    tape::next()
}

#[cfg(kani)]
pub fn assume(c: bool) {
    kani::assume(c)
}
/// In native replay an unmet assumption means the tape is not a counterexample.
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        std::panic::panic_any(tape::Unmet);
    }
}

pub fn any_res() -> CpuIdResult {
    let (eax, ebx, ecx, edx) = (any_u32(), any_u32(), any_u32(), any_u32());
    CpuIdResult { eax, ebx, ecx, edx }
}

#[cfg(kani)]
pub use kani::assert as check;
#[cfg(not(kani))]
#[track_caller]
pub fn check(c: bool, m: &'static str) {
    // Obligations of known findings are left to the verifier.
    if !c && std::env::var("CONTRACT_SKIP").map_or(false, |k| k.lines().any(|l| l == m)) {
        return;
    }
    assert!(c, "{}", m)
}

/// A named obligation.
#[macro_export]
macro_rules! ck {
    ($c:expr, $m:expr) => {
        $crate::core_::check($c, $m)
    };
}

/// Reachability guard: under Kani the driver requires it to be satisfiable.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:expr) => {
        #[cfg(kani)]
        kani::cover($c, $m);
        #[cfg(not(kani))]
        let _ = $c;
    };
}

// ------------------------------------------------------- symbolic machine ---

/// A CPUID implementation: `N` leaf/sub-leaf pairs whose registers the contract
/// talks about, and one further register set answering every other query.
/// `strict` turns the table into a read frame: any other query is a violation.
#[derive(Clone)]
pub struct Cpu<const N: usize> {
    pub e: [(u32, u32, CpuIdResult); N],
    pub other: CpuIdResult,
    pub strict: bool,
}

impl<const N: usize> Cpu<N> {
    pub fn get(&self, leaf: u32, sub: u32) -> CpuIdResult {
        let mut i = 0;
        while i < N {
            if self.e[i].0 == leaf && self.e[i].1 == sub {
                return self.e[i].2;
            }
            i += 1;
        }
        self.other
    }
    fn listed(&self, leaf: u32, sub: u32) -> bool {
        let mut i = 0;
        while i < N {
            if self.e[i].0 == leaf && self.e[i].1 == sub {
                return true;
            }
            i += 1;
        }
        false
    }
}

impl<const N: usize> CpuIdReader for Cpu<N> {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        if self.strict {
            ck!(
                self.listed(eax, ecx),
                "read-frame: only the documented leaf/sub-leaf pairs are read"
            );
        }
        self.get(eax, ecx)
    }
}

/// Arbitrary machine whose registers are distinguishable at the given pairs.
pub fn machine<const N: usize>(keys: [(u32, u32); N]) -> Cpu<N> {
    let z = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };
    let mut e = [(0u32, 0u32, z); N];
    let mut i = 0;
    while i < N {
        e[i] = (keys[i].0, keys[i].1, any_res());
        i += 1;
    }
    Cpu { e, other: any_res(), strict: false }
}

pub fn open<const N: usize>(m: &Cpu<N>) -> CpuId<Cpu<N>> {
    CpuId::with_cpuid_reader(m.clone())
}

// ------------------------------------------------------- specification -----

pub const L0: (u32, u32) = (0, 0);
pub const X0: (u32, u32) = (0x8000_0000, 0);
pub const L1: (u32, u32) = (1, 0);

/// r[hi:lo] as the manuals write it.
pub fn bits(r: u32, lo: u32, hi: u32) -> u32 {
    let w = hi - lo + 1;
    let m = ((1u64 << w) - 1) as u32;
    (r >> lo) & m
}
pub fn bit(r: u32, b: u32) -> bool {
    (r >> b) & 1 == 1
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum V {
    Intel,
    Amd,
    Other,
}

pub const fn w(s: &[u8; 12], i: usize) -> u32 {
    u32::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]])
}
fn is_vendor(l0: &CpuIdResult, s: &[u8; 12]) -> bool {
    // EBX, EDX, ECX hold the string in this order.
    l0.ebx == w(s, 0) && l0.edx == w(s, 4) && l0.ecx == w(s, 8)
}
/// The vendor a machine reports in leaf 0.
pub fn vendor(l0: &CpuIdResult) -> V {
    if is_vendor(l0, b"GenuineIntel") {
        V::Intel
    } else if is_vendor(l0, b"AuthenticAMD") || is_vendor(l0, b"HygonGenuine") {
        V::Amd
    } else {
        V::Other
    }
}

pub fn amd_reserved(leaf: u32) -> bool {
    (leaf >= 2 && leaf <= 4) || (leaf >= 8 && leaf <= 0xa)
}

/// Does this machine support the leaf?
pub fn supported<const N: usize>(m: &Cpu<N>, leaf: u32) -> bool {
    let l0 = m.get(0, 0);
    if leaf >= 0x8000_0000 {
        leaf <= m.get(0x8000_0000, 0).eax
    } else {
        !(vendor(&l0) == V::Amd && amd_reserved(leaf)) && leaf <= l0.eax
    }
}
pub fn is_amd<const N: usize>(m: &Cpu<N>) -> bool {
    vendor(&m.get(0, 0)) == V::Amd
}

// --------------------------------------------------- dependency contract ---

/// Specification of UTF-8 validity (Unicode 15, table 3-7), byte by byte.
#[derive(Clone, Copy)]
pub struct Utf8 {
    /// Continuation bytes outstanding.
    pub need: u8,
    /// Range of the next one.
    lo: u8,
    hi: u8,
}
impl Utf8 {
    pub const START: Utf8 = Utf8 { need: 0, lo: 0x80, hi: 0xbf };
    /// Accepts one more byte, or refuses the text.
    pub fn step(&mut self, b: u8) -> bool {
        if self.need == 0 {
            if b >= 0x80 {
                if b < 0xc2 || b > 0xf4 {
                    return false;
                }
                self.need = if b < 0xe0 { 1 } else if b < 0xf0 { 2 } else { 3 };
                self.lo = if b == 0xe0 { 0xa0 } else if b == 0xf0 { 0x90 } else { 0x80 };
                self.hi = if b == 0xed { 0x9f } else if b == 0xf4 { 0x8f } else { 0xbf };
            }
        } else {
            if b < self.lo || b > self.hi {
                return false;
            }
            self.need -= 1;
            self.lo = 0x80;
            self.hi = 0xbf;
        }
        true
    }
}
/// How far the text is well formed; of a malformed one, how many bytes the fault
/// spans (0: the text ends within a character).
pub fn utf8_prefix(v: &[u8]) -> (usize, u8) {
    let mut u = Utf8::START;
    let (mut i, mut good) = (0, 0);
    while i < v.len() {
        if !u.step(v[i]) {
            return (good, if i == good { 1 } else { (i - good) as u8 });
        }
        i += 1;
        if u.need == 0 {
            good = i;
        }
    }
    (good, 0)
}
pub fn utf8_valid(v: &[u8]) -> bool {
    utf8_prefix(v).0 == v.len()
}

/// The refused text's fault, which `Utf8Error`'s accessors report (of the last
/// refused text: no code here keeps an error across another call).
#[cfg(kani)]
static mut FAULT: (usize, u8) = (0, 0);
#[cfg(kani)]
pub fn valid_up_to_contract(_: &core::str::Utf8Error) -> usize {
    unsafe { FAULT.0 }
}
#[cfg(kani)]
pub fn error_len_contract(_: &core::str::Utf8Error) -> Option<usize> {
    match unsafe { FAULT.1 } {
        0 => None,
        n => Some(n as usize),
    }
}

/// Contract of `core::str::from_utf8`, used in place of its body: valid input is
/// returned unchanged, invalid input is refused with the place of its first fault.
/// Discharged by coretext.rs for every text of at most 48 bytes.
#[cfg(kani)]
pub fn from_utf8_contract(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let (good, len) = utf8_prefix(v);
    if good == v.len() {
        Ok(unsafe { core::str::from_utf8_unchecked(v) })
    } else {
        unsafe { FAULT = (good, len) };
        let mut bad = [0xffu8];
        Err(core::str::from_utf8_mut(&mut bad).unwrap_err())
    }
}

/// Length of the white-space character that starts at `i` (0: none there). The
/// 25 code points with the Unicode property White_Space, in UTF-8.
fn white_at(v: &[u8], i: usize, n: usize) -> usize {
    let b0 = v[i];
    if b0 == b' ' || (b0 >= 9 && b0 <= 13) {
        return 1;
    }
    if b0 < 0xc2 || i + 1 >= n {
        return 0;
    }
    let b1 = v[i + 1];
    if b0 == 0xc2 && (b1 == 0x85 || b1 == 0xa0) {
        return 2;
    }
    if b0 < 0xe1 || b0 > 0xe3 || i + 2 >= n {
        return 0;
    }
    let b2 = v[i + 2];
    let w = match (b0, b1) {
        (0xe1, 0x9a) => b2 == 0x80,
        (0xe2, 0x80) => b2 <= 0x8a || b2 == 0xa8 || b2 == 0xa9 || b2 == 0xaf,
        (0xe2, 0x81) => b2 == 0x9f,
        (0xe3, 0x80) => b2 == 0x80,
        _ => false,
    };
    if w { 3 } else { 0 }
}
/// One pass over a text: `lo` is the first character that is not white space (n:
/// none so far), `hi` the end of the last one; `skip` counts the bytes left of a
/// multi-byte white character.
#[derive(Clone, Copy)]
pub struct Trim {
    pub lo: usize,
    pub hi: usize,
    pub skip: usize,
}
impl Trim {
    pub fn start(n: usize) -> Trim {
        Trim { lo: n, hi: n, skip: 0 }
    }
    /// Byte `i` of v[..n].
    pub fn step(&mut self, v: &[u8], i: usize, n: usize) {
        if self.skip > 0 {
            self.skip -= 1;
        } else {
            let w = white_at(v, i, n);
            if w == 0 {
                if self.lo == n {
                    self.lo = i;
                }
                self.hi = i + 1;
            } else {
                self.skip = w - 1;
            }
        }
    }
}
/// The range of the text `v[..n]` that is left after dropping leading and
/// trailing white space (v[..n] is valid UTF-8).
pub fn trim_range(v: &[u8], n: usize) -> (usize, usize) {
    let mut t = Trim::start(n);
    let mut i = 0;
    while i < n {
        t.step(v, i, n);
        i += 1;
    }
    if t.lo == n { (n, n) } else { (t.lo, t.hi) }
}

/// Contract of `str::trim`, used in place of its body.
#[cfg(kani)]
pub fn trim_contract(s: &str) -> &str {
    let v = s.as_bytes();
    let (lo, hi) = trim_range(v, v.len());
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(v.as_ptr().add(lo), hi - lo)) }
}

/// Contracts of `str::trim_start` and `str::trim_end`, for code that trims in two steps.
#[cfg(kani)]
pub fn trim_start_contract(s: &str) -> &str {
    let v = s.as_bytes();
    let (lo, _) = trim_range(v, v.len());
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(v.as_ptr().add(lo), v.len() - lo)) }
}
#[cfg(kani)]
pub fn trim_end_contract(s: &str) -> &str {
    let v = s.as_bytes();
    let (lo, hi) = trim_range(v, v.len());
    let n = if lo == v.len() { 0 } else { hi };
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(v.as_ptr(), n)) }
}

/// Declares contract harnesses: proofs under Kani, plain functions natively.
/// The trailing list is the registry used by the native replayer.
#[macro_export]
macro_rules! contracts {
    ($reg:ident; $( $(#[unwind($u:literal)])? $(#[solver($s:ident)])? fn $n:ident() $b:block )*) => {
        $(
            $crate::contracts!(@one [$($u)?] [$($s)?] $n $b);
        )*
        pub static $reg: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
    (@one [] $s:tt $n:ident $b:block) => { $crate::contracts!(@one [14] $s $n $b); };
    (@one $u:tt [] $n:ident $b:block) => { $crate::contracts!(@one $u [cadical] $n $b); };
    (@one [$u:literal] [$s:ident] $n:ident $b:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        #[cfg_attr(kani, kani::solver($s))]
        #[cfg_attr(kani, kani::stub(core::str::from_utf8, crate::core_::from_utf8_contract))]
        #[cfg_attr(kani, kani::stub(core::str::Utf8Error::valid_up_to, crate::core_::valid_up_to_contract))]
        #[cfg_attr(kani, kani::stub(core::str::Utf8Error::error_len, crate::core_::error_len_contract))]
        #[cfg_attr(kani, kani::stub(str::trim, crate::core_::trim_contract))]
        #[cfg_attr(kani, kani::stub(str::trim_start, crate::core_::trim_start_contract))]
        #[cfg_attr(kani, kani::stub(str::trim_end, crate::core_::trim_end_contract))]
        #[cfg_attr(all(kani, verif, modular), kani::stub_verified(raw_cpuid::get_bits))]
        #[cfg_attr(all(kani, verif, modular), kani::stub_verified(raw_cpuid::Vendor::from_vendor_leaf))]
        #[cfg_attr(all(kani, verif, modular), kani::stub_verified(raw_cpuid::CpuId::leaf_is_supported))]
        #[cfg_attr(all(kani, verif, modular), kani::stub_verified(raw_cpuid::Associativity::for_l1))]
        #[cfg_attr(all(kani, verif, modular), kani::stub_verified(raw_cpuid::Associativity::for_l2))]
        #[cfg_attr(all(kani, verif, modular), kani::stub_verified(raw_cpuid::Associativity::for_l3))]
        pub fn $n() $b
    };
}

/// `name = r.reg[lo..=hi] (+ k)` : the accessor equals that bit field.
#[macro_export]
macro_rules! nums {
    ($tag:literal, $f:expr; $( $n:ident = $r:ident.$g:ident[$lo:literal..=$hi:literal] $(+ $k:literal)? ;)*) => {
        $( $crate::ck!($f.$n() as u64 == $crate::core_::bits($r.$g, $lo, $hi) as u64 $(+ $k)?,
            concat!($tag, "::", stringify!($n), " == ", stringify!($r.$g), "[", $hi, ":", $lo, "]", $("+", $k,)? )); )*
    };
}

/// `name = r.reg[bit]` : the predicate reports exactly that bit.
#[macro_export]
macro_rules! flags {
    ($tag:literal, $f:expr; $( $n:ident = $r:ident.$g:ident[$b:literal] ;)*) => {
        $( $crate::ck!($f.$n() == $crate::core_::bit($r.$g, $b),
            concat!($tag, "::", stringify!($n), " == ", stringify!($r.$g), "[", $b, "]")); )*
    };
}

/// Opens an arbitrary machine at the given pairs, performs one query, and checks
/// the body on every answer. The reach guard makes an empty domain an error.
#[macro_export]
macro_rules! with_answer {
    ([$($k:expr),*], $m:ident, $x:ident = $get:ident, $body:block) => {
        let $m = $crate::core_::machine([$crate::core_::L0, $crate::core_::X0 $(, $k)*]);
        let c = $crate::core_::open(&$m);
        if let Some($x) = c.$get() {
            $crate::reach!(true, concat!(stringify!($get), " answers"));
            $body
        }
    };
}

/// Calls accessors for their side condition only (no panic, no overflow).
#[macro_export]
macro_rules! touch {
    ($f:expr; $($n:ident)*) => { $( let _ = $f.$n(); )* };
}

/// Predicates that must not hold, whatever the registers.
#[macro_export]
macro_rules! never {
    ($tag:literal, $f:expr; $($n:ident)*) => { $(
        $crate::ck!(!$f.$n(), concat!($tag, "::", stringify!($n), " is false"));
    )* };
}

/// Three steps of an iterator, the body on every item.
#[macro_export]
macro_rules! while_some {
    ($i:ident, $x:ident, $body:block) => { $crate::while_some!(@ 3, $i, $x, $body) };
    (@ $n:literal, $i:ident, $x:ident, $body:block) => {{
        let mut n = 0;
        let mut go = true;
        while n < $n && go {
            if let Some($x) = $i.next() { $body } else { go = false; }
            n += 1;
        }
    }};
}
