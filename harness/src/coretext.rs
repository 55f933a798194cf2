//! C14: the contract assumed for `core::str::from_utf8`, for every text of at most
//! 48 bytes (the brand strings) and every alignment.
//!
//! `run_utf8_validation` is the text of the installed library/core, extracted on
//! every run by coretext.py, which says what it drops. Its three loops are under
//! loop contracts over a ghost array, the states of the specification automaton:
//! BOUNDARY[i] says that the first i bytes are well formed, and each loop keeps
//! BOUNDARY[index].
use crate::core_::{utf8_prefix, Trim as White, Utf8};
use crate::*;

const N: usize = 48;
static mut BOUNDARY: [bool; N + 1] = [false; N + 1];
fn boundary(i: usize) -> bool {
    unsafe { BOUNDARY[i] }
}
pub struct Utf8Error {
    pub valid_up_to: usize,
    pub error_len: Option<u8>,
}
/// Stands for slice::Iter<u8> over the text: the elements in order, from both ends.
pub struct Bytes<'a> {
    lo: usize,
    hi: usize,
    text: core::marker::PhantomData<&'a u8>,
}
static mut TEXT: [u8; N] = [0; N];
impl<'a> Bytes<'a> {
    fn len(&self) -> usize {
        self.hi - self.lo
    }
}
impl<'a> Iterator for Bytes<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> {
        if self.lo == self.hi {
            return None;
        }
        self.lo += 1;
        Some(unsafe { &TEXT[self.lo - 1] })
    }
}
impl<'a> DoubleEndedIterator for Bytes<'a> {
    fn next_back(&mut self) -> Option<&'a u8> {
        if self.lo == self.hi {
            return None;
        }
        self.hi -= 1;
        Some(unsafe { &TEXT[self.hi] })
    }
}
enum SearchStep {
    Match(usize, usize),
    Reject(usize, usize),
    Done,
}
fn into_searcher<F: FnMut(char) -> bool>(char_eq: F, haystack: &str) -> MultiCharEqSearcher<'_, F> {
    let chars = Chars { iter: Bytes { lo: 0, hi: haystack.len(), text: core::marker::PhantomData } };
    MultiCharEqSearcher { char_eq, haystack, char_indices: CharIndices { front_offset: 0, iter: chars } }
}
trait Trim {
    fn trim_matches<F: FnMut(char) -> bool>(&self, pat: F) -> &str;
}
include!(env!("CORE_TEXT"));

#[repr(align(8))]
struct Aligned([u8; N + 8]);

fn validation_meets_contract<const OFFSET: usize>() {
    let a = Aligned(kani::any());
    let n: usize = kani::any();
    kani::assume(n <= N);
    let mut u = Utf8::START;
    let mut good = true;
    let mut i = 0;
    while i <= N {
        unsafe { BOUNDARY[i] = good && u.need == 0 };
        good = good && i < N && u.step(a.0[OFFSET + i]);
        i += 1;
    }
    let r = run_utf8_validation(&a.0[OFFSET..OFFSET + n]);
    ck!(r.is_ok() == boundary(n), "run_utf8_validation accepts exactly the well formed texts");
    if let Err(e) = &r {
        let (good, len) = utf8_prefix(&a.0[OFFSET..OFFSET + n]);
        ck!(e.valid_up_to == good, "run_utf8_validation reports the place of the first fault");
        ck!(e.error_len == if len == 0 { None } else { Some(len) }, "run_utf8_validation reports the length of the fault");
    }
    kani::cover!(r.is_ok() && n == N, "accepted");
    kani::cover!(r.is_err() && n == N, "refused");
}
macro_rules! offsets {
    ($($n:ident = $o:literal;)*) => { $(
        #[kani::proof]
        #[kani::unwind(50)]
        fn $n() { validation_meets_contract::<$o>() }
    )* };
}
offsets! {
    c14_text_0 = 0; c14_text_4 = 4;
    c14_text_1 = 1; c14_text_2 = 2; c14_text_3 = 3;
    c14_text_5 = 5; c14_text_6 = 6; c14_text_7 = 7;
}

// ---------------------------------------------------------------- trim ---

/// The specification's state before each byte, and the length.
static mut WHITE: [White; N + 1] = [White { lo: 0, hi: 0, skip: 0 }; N + 1];
static mut LEN: usize = 0;
/// Before the first character that is not white space.
fn front(s: &CharIndices) -> bool {
    let (p, n) = (s.iter.iter.lo, unsafe { LEN });
    s.iter.iter.hi == n && p <= n && s.front_offset == p && boundary(p)
        && unsafe { WHITE[p].lo == n && WHITE[p].skip == 0 }
}
/// Behind the last one.
fn back(s: &CharIndices) -> bool {
    let (p, q, n) = (s.iter.iter.lo, s.iter.iter.hi, unsafe { LEN });
    p <= q && q <= n && s.front_offset == p && boundary(p) && boundary(q)
        && unsafe { WHITE[q].hi == WHITE[n].hi }
}
#[kani::proof]
#[kani::unwind(50)]
fn c14_text_trim() {
    let b: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= N);
    let mut u = Utf8::START;
    let mut w = White::start(n);
    let mut good = true;
    let mut i = 0;
    while i <= N {
        unsafe {
            BOUNDARY[i] = good && u.need == 0;
            WHITE[i] = w;
        }
        if i < N {
            good = good && u.step(b[i]);
            w.step(&b, i, n);
        }
        i += 1;
    }
    kani::assume(boundary(n));
    unsafe {
        LEN = n;
        TEXT = b;
    }
    let (lo, hi) = unsafe { (WHITE[n].lo, WHITE[n].hi) };
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let t = <str as Trim>::trim_matches(s, char::is_whitespace);
    if lo == n {
        ck!(t.len() == 0, "trim leaves nothing of white space");
    } else {
        ck!(t.len() == hi - lo, "trim drops the leading and trailing white space");
        ck!(t.as_ptr() == unsafe { b.as_ptr().add(lo) }, "trim returns the inner part of its input");
    }
    kani::cover!(lo == 1 && hi == N - 1, "both sides");
    kani::cover!(lo == n && n == N, "white space only");
}
