//! C14: the vendor, brand and SoC strings are the register bytes in documented
//! order when those are valid text, and the documented placeholder otherwise.
use crate::core_::*;
use crate::*;

fn put(b: &mut [u8], at: usize, r: u32) {
    b[at] = bits(r, 0, 7) as u8;
    b[at + 1] = bits(r, 8, 15) as u8;
    b[at + 2] = bits(r, 16, 23) as u8;
    b[at + 3] = bits(r, 24, 31) as u8;
}
/// The 48 bytes of three leaves, EAX, EBX, ECX, EDX each.
fn bytes48(r: [CpuIdResult; 3]) -> [u8; 48] {
    let mut b = [0u8; 48];
    let mut i = 0;
    while i < 3 {
        put(&mut b, 16 * i, r[i].eax);
        put(&mut b, 16 * i + 4, r[i].ebx);
        put(&mut b, 16 * i + 8, r[i].ecx);
        put(&mut b, 16 * i + 12, r[i].edx);
        i += 1;
    }
    b
}
fn is(s: &str, b: &[u8]) -> bool {
    if s.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < b.len() {
        if s.as_bytes()[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn ascii(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        if b[i] >= 0x80 {
            return false;
        }
        i += 1;
    }
    true
}
/// Bytes up to the first NUL.
fn text_len(b: &[u8]) -> usize {
    let mut i = 0;
    while i < b.len() && b[i] != 0 {
        i += 1;
    }
    i
}

contracts! { REG;
    #[unwind(50)]
    fn c14_vendor() { with_answer!([], m, f = get_vendor_info, {
        let r = m.get(0, 0);
        let mut b = [0u8; 12];
        put(&mut b, 0, r.ebx);
        put(&mut b, 4, r.edx);
        put(&mut b, 8, r.ecx);
        if utf8_valid(&b) {
            ck!(is(f.as_str(), &b), "VendorInfo::as_str is the 12 bytes of EBX, EDX, ECX");
            reach!(!ascii(&b), "a vendor beyond ASCII");
        } else {
            ck!(is(f.as_str(), b"InvalidVendorString"), "VendorInfo::as_str is the placeholder when the bytes are not text");
            reach!(true, "not text");
        }
        #[allow(deprecated)]
        let same = is(f.as_string(), f.as_str().as_bytes());
        ck!(same, "VendorInfo::as_string == as_str");
    }); }
    #[unwind(50)]
    fn c14_soc_brand() { with_answer!([(0x17, 0), (0x17, 1), (0x17, 2), (0x17, 3)], m, f = get_soc_vendor_info, {
        let b = bytes48([m.get(0x17, 1), m.get(0x17, 2), m.get(0x17, 3)]);
        if let Some(s) = f.get_vendor_brand() {
            if utf8_valid(&b) {
                ck!(is(s.as_str(), &b), "SoCVendorBrand::as_str is the 48 bytes of sub-leaves 1 to 3");
                reach!(true, "text");
            } else {
                ck!(is(s.as_str(), b"InvalidSoCVendorString"), "SoCVendorBrand::as_str is the placeholder when the bytes are not text");
                reach!(true, "not text");
            }
        }
    }); }
    #[unwind(50)]
    fn c14_brand_string() {
        let m = machine([L0, X0, (0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0)]);
        let b = bytes48([m.get(0x8000_0002, 0), m.get(0x8000_0003, 0), m.get(0x8000_0004, 0)]);
        let n = text_len(&b);
        if let Some(f) = open(&m).get_processor_brand_string() {
            let s = f.as_str();
            if utf8_valid(&b[..n]) {
                let (lo, hi) = trim_range(&b, n);
                ck!(is_range(s, &b, lo, hi), "ProcessorBrandString::as_str is the text up to the first NUL, trimmed");
                reach!(lo == 1 && hi == 47, "trimmed on both sides");
                reach!(n == 48 && lo == 0 && hi == 48, "all 48 bytes");
                reach!(n == 0, "empty");
            } else {
                ck!(is(s, b"Invalid Processor Brand String"), "ProcessorBrandString::as_str is the placeholder when the bytes are not text");
                reach!(true, "not text");
            }
        }
    }
}

/// s == b[lo..hi]: same length, and the same byte at an arbitrary position.
fn is_range(s: &str, b: &[u8], lo: usize, hi: usize) -> bool {
    if s.len() != hi - lo {
        return false;
    }
    let k = any_u32() as usize;
    assume(k < 48);
    k >= hi - lo || s.as_bytes()[k] == b[lo + k]
}

/// Checks the contract assumed for `core::str::from_utf8` on the real function,
/// for every text of at most N bytes (bounded: the brand strings have up to 48).
#[cfg(kani)]
fn from_utf8_meets_contract<const N: usize>() {
    let b: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= N);
    match core::str::from_utf8(&b[..n]) {
        Ok(s) => {
            ck!(utf8_valid(&b[..n]), "from_utf8 accepts valid text only");
            ck!(s.as_ptr() == b.as_ptr() && s.len() == n, "from_utf8 returns its input");
            kani::cover!(n == N, "accepted");
        }
        Err(e) => {
            ck!(!utf8_valid(&b[..n]), "from_utf8 refuses invalid text only");
            let (good, len) = utf8_prefix(&b[..n]);
            ck!(e.valid_up_to() == good, "Utf8Error::valid_up_to is the place of the first fault");
            ck!(e.error_len() == if len == 0 { None } else { Some(len as usize) }, "Utf8Error::error_len is the length of the fault");
            kani::cover!(n == N, "refused");
        }
    }
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(10)]
fn c14_dep_from_utf8() {
    from_utf8_meets_contract::<8>()
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(14)]
fn c14_deep_from_utf8() {
    from_utf8_meets_contract::<12>()
}
/// The same for `str::trim`, `str::trim_start` and `str::trim_end`.
#[cfg(kani)]
fn trim_meets_contract<const N: usize>() {
    let b: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= N && utf8_valid(&b[..n]));
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let (lo, hi) = trim_range(&b, n);
    let t = s.trim();
    ck!(t.len() == hi - lo, "trim drops the leading and trailing white space");
    ck!(t.len() == 0 || t.as_ptr() == unsafe { b.as_ptr().add(lo) }, "trim returns the inner part of its input");
    let t = s.trim_start();
    ck!(t.len() == n - lo && t.as_ptr() == unsafe { b.as_ptr().add(lo) }, "trim_start drops the leading white space");
    let t = s.trim_end();
    ck!(t.len() == if lo == n { 0 } else { hi } && t.as_ptr() == b.as_ptr(), "trim_end drops the trailing white space");
    kani::cover!(lo == 1 && hi == N - 1, "both sides");
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(9)]
fn c14_dep_trim() {
    trim_meets_contract::<6>()
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(11)]
fn c14_deep_trim() {
    trim_meets_contract::<8>()
}
