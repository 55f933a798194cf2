//! C08: leaf 2 descriptor decoding.
use crate::core_::*;
use crate::sdm::*;
use crate::*;
use raw_cpuid::{CacheInfoIter, CACHE_INFO_TABLE};

/// The walk order: byte planes, registers EAX, EBX, ECX, EDX within a plane; AL
/// (position 0) is not a descriptor.
pub fn byte_at(r: &CpuIdResult, pos: u32) -> u8 {
    let reg = match pos % 4 { 0 => r.eax, 1 => r.ebx, 2 => r.ecx, _ => r.edx };
    if bit(reg, 31) { 0 } else { bits(reg, 8 * (pos / 4), 8 * (pos / 4) + 7) as u8 }
}

/// An Intel machine with these leaf 2 registers (constants, so that the verifier
/// can follow the scan of the table; the gates are C01's).
pub fn intel(r: CpuIdResult) -> Cpu<3> {
    let z = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };
    let l0 = CpuIdResult { eax: 0x20, ebx: w(b"GenuineIntel", 0), edx: w(b"GenuineIntel", 4), ecx: w(b"GenuineIntel", 8) };
    Cpu { e: [(0, 0, l0), (2, 0, r), (0x8000_0000, 0, z)], other: z, strict: false }
}

/// Bounded stand-in for the loop-contract proof: leaf 2 registers with a known
/// descriptor at walk position `p - 1`, arbitrary bytes at `p` and `p + 1`, and
/// zero elsewhere; what next() answers up to the first arbitrary descriptor.
fn adjacent(p: u32) {
    assume(p >= 1 && p <= 15);
    let (x, y) = (any_u32(), any_u32());
    assume(x < 0x100 && y < 0x100);
    let mut r = [0u32; 4];
    let mut put = |p: u32, v: u32| r[(p % 4) as usize] |= v << (8 * (p / 4));
    if p > 1 { put(p - 1, 0x2c); }
    put(p, x);
    if p < 15 { put(p + 1, y); }
    let r = CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] };
    let m = intel(r);
    let mut i = open(&m).get_cache_info().unwrap();
    if p > 1 {
        let first = i.next();
        ck!(first.map_or(false, |ci| ci.num == 0x2c) == (byte_at(&r, p - 1) == 0x2c), "descriptor: a documented descriptor is reported");
        if first.is_none() { return; }
    }
    let b = byte_at(&r, p);
    let b = if descriptor(b).is_some() { b } else if p < 15 { byte_at(&r, p + 1) } else { 0 };
    match i.next() {
        Some(ci) => {
            ck!(ci.num == b || ci.num == 0xc3, "descriptor: the reported number is the register byte, in order");
            ck!(ci.num == 0xc3 || Some(kind(ci.typ)) == descriptor(b), "descriptor: the reported type is the documented one");
            reach!(ci.num == x as u8, "a descriptor");
        }
        None => ck!(descriptor(b).is_none(), "descriptor: no documented descriptor is missing"),
    }
}
/// Run natively on every (p, x, y) by `bounded`; not a verifier harness.
pub static REG_BOUND: &[(&str, fn())] = &[("c08_bound", || adjacent(any_u32()))];

contracts! { REG;
    #[unwind(118)]
    fn c08_descriptor_c3() {
        let m = intel(CpuIdResult { eax: 1, ebx: 0xc3, ecx: 0, edx: 0 });
        if let Some(mut i) = open(&m).get_cache_info() {
            reach!(true, "get_cache_info answers");
            ck!(i.next().map_or(false, |ci| ci.num == 0xc3), "descriptor: 0xC3 is reported");
        }
    }
    fn c08_table() {
        // The exported table: every listed descriptor exactly once, with its type.
        let (p, q) = (any_u32() as usize, any_u32() as usize);
        assume(p < CACHE_INFO_TABLE.len() && q < CACHE_INFO_TABLE.len() && p != q);
        reach!(true, "two entries");
        let (a, b) = (CACHE_INFO_TABLE[p], CACHE_INFO_TABLE[q]);
        ck!(a.num != b.num, "CACHE_INFO_TABLE: numbers are distinct");
        ck!(a.num == 0 || a.num == 0xc3 || descriptor(a.num) == Some(kind(a.typ)),
            "CACHE_INFO_TABLE: every entry has the documented type");
    }
    #[unwind(118)]
    fn c08_table_complete() {
        let n = any_u32() as u8;
        let mut found = false;
        let mut k = 0;
        while k < CACHE_INFO_TABLE.len() {
            found = found || CACHE_INFO_TABLE[k].num == n;
            k += 1;
        }
        ck!(found || descriptor(n).is_none(), "CACHE_INFO_TABLE: every documented descriptor is listed");
        ck!(!found || n == 0 || n == 0xc3 || descriptor(n).is_some(), "CACHE_INFO_TABLE: only documented descriptors are listed");
        reach!(found && n == 0xff, "the last one");
        reach!(!found, "an undocumented number");
    }
    #[unwind(118)]
    fn c08_description() {
        let mut c = CACHE_INFO_TABLE[0];
        c.num = any_u32() as u8;
        let mut want = "Unknown cache type!";
        let mut k = 0;
        while k < DESCRIPTIONS.len() {
            if DESCRIPTIONS[k].0 == c.num {
                want = DESCRIPTIONS[k].1;
                reach!(k == 100, "a documented description");
            }
            k += 1;
        }
        let got = c.desc();
        let at = any_u32() as usize;
        assume(at < want.len());
        ck!(got.len() == want.len() && got.as_bytes()[at] == want.as_bytes()[at],
            "CacheInfo::desc: the documented description, and unknown for undefined numbers");
    }
}
