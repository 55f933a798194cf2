//! C21: the native reader answers with the registers that CPUID leaves for exactly
//! the given EAX and ECX.
//!
//! The instruction itself is core's intrinsic, replaced here by its contract: some
//! function of (EAX, ECX), the one fixed per call. Natively it is the processor's.
use crate::core_::*;
use crate::*;
use core::arch::x86_64 as arch;
use raw_cpuid::native_cpuid::cpuid_count;
use raw_cpuid::{cpuid, CpuIdReader, CpuIdReaderNative};

/// Contract of the intrinsics: `answer` for the inputs in `at`, anything for others.
#[cfg(kani)]
pub mod cpu {
    use super::*;
    pub static mut AT: (u32, u32) = (0, 0);
    pub static mut ANSWER: (u32, u32, u32, u32) = (0, 0, 0, 0);
    pub fn count(leaf: u32, sub: u32) -> arch::CpuidResult {
        let (at, r) = unsafe { (AT, ANSWER) };
        if at == (leaf, sub) {
            arch::CpuidResult { eax: r.0, ebx: r.1, ecx: r.2, edx: r.3 }
        } else {
            arch::CpuidResult { eax: any_u32(), ebx: any_u32(), ecx: any_u32(), edx: any_u32() }
        }
    }
    pub fn leaf(leaf: u32) -> arch::CpuidResult {
        count(leaf, 0)
    }
    pub fn max(l: u32) -> (u32, u32) {
        let r = leaf(l);
        (r.eax, r.ebx)
    }
}

/// `f` returns what CPUID leaves for (`eax`, `ecx`).
#[cfg(kani)]
fn answers(eax: u32, ecx: u32, f: impl Fn(u32, u32) -> CpuIdResult) -> bool {
    let r = any_res();
    unsafe {
        cpu::AT = (eax, ecx);
        cpu::ANSWER = (r.eax, r.ebx, r.ecx, r.edx);
    }
    f(eax, ecx) == r
}

/// Natively also for inputs on which the sub-leaf matters. Some leaves identify the
/// logical processor, which may change between two queries: the answer has to differ
/// repeatedly, each time from two equal answers around it.
#[cfg(not(kani))]
fn answers(eax: u32, ecx: u32, f: impl Fn(u32, u32) -> CpuIdResult) -> bool {
    let read = |a, c| {
        let r = arch::__cpuid_count(a, c);
        CpuIdResult { eax: r.eax, ebx: r.ebx, ecx: r.ecx, edx: r.edx }
    };
    let same = |a, c| {
        (0..50).any(|_| {
            let before = read(a, c);
            let r = f(a, c);
            r == before || before != read(a, c)
        })
    };
    let subs: &[u32] = if ecx == 0 { &[0] } else { &[0, 1, 2, 3, ecx, 0x100, 0x1_0000, 1 << 31] };
    same(eax, ecx)
        && [0, 1, 2, 4, 7, 0xb, 0xd, 0x10, 0x12, 0x14, 0x18, 0x1d, 0x8000_0000, 0x8000_0001, 0x8000_0002, 0x8000_0008, 0x8000_001d, 0x4000_0000]
            .iter()
            .all(|&a| subs.iter().all(|&c| same(a, c)))
}

macro_rules! native {
    ($(fn $n:ident() $b:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(4))]
            #[cfg_attr(kani, kani::stub(core::arch::x86_64::__cpuid_count, crate::native::cpu::count))]
            #[cfg_attr(kani, kani::stub(core::arch::x86_64::__cpuid, crate::native::cpu::leaf))]
            #[cfg_attr(kani, kani::stub(core::arch::x86_64::__get_cpuid_max, crate::native::cpu::max))]
            pub fn $n() $b
        )*
        pub static REG: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
}
native! {
    fn c21_reader() {
        let (a, c) = (any_u32(), any_u32());
        ck!(answers(a, c, |a, c| CpuIdReaderNative.cpuid2(a, c)), "cpuid2(eax, ecx): the registers of CPUID for that leaf and sub-leaf");
        reach!(c > 0, "a sub-leaf");
    }
    fn c21_reader_leaf() {
        let a = any_u32();
        ck!(answers(a, 0, |a, _| CpuIdReaderNative.cpuid1(a)), "cpuid1(eax): the registers of CPUID for that leaf and sub-leaf 0");
        reach!(a > 0, "a leaf");
    }
    fn c21_count() {
        let (a, c) = (any_u32(), any_u32());
        ck!(answers(a, c, cpuid_count), "cpuid_count(eax, ecx): the registers of CPUID for that leaf and sub-leaf");
        reach!(c > 0, "a sub-leaf");
    }
    fn c21_macro() {
        let (a, c) = (any_u32(), any_u32());
        ck!(answers(a, c, |a, c| cpuid!(a, c)), "cpuid!(eax, ecx): the registers of CPUID for that leaf and sub-leaf");
        ck!(answers(a, 0, |a, _| cpuid!(a)), "cpuid!(eax): the registers of CPUID for that leaf and sub-leaf 0");
        reach!(c > 0, "a sub-leaf");
    }
}
