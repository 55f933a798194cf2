//! The internal functions that the queries share, against their contracts in the
//! source (needs the hooks, `--cfg verif --cfg contracts`). The contracts are written in place in
//! /repo; here they are discharged, for every input. The `ck!` obligations state
//! the same from the manuals, and are what a native replay evaluates.
//!
//! With `--cfg modular` every public contract is proved once more against these
//! contracts instead of the bodies.
use crate::core_::*;
use crate::*;
use crate::enums::{l1, l2};
use raw_cpuid::verif;

macro_rules! of {
    ($($(#[unwind($u:literal)])? $f:path, fn $n:ident() $b:block)*) => {
        $(
            #[cfg_attr(all(kani, contracts), kani::proof_for_contract($f))]
            #[cfg_attr(all(kani, contracts), kani::stub(core::str::from_utf8, crate::core_::from_utf8_contract))]
            #[cfg_attr(all(kani, contracts), kani::stub(core::str::Utf8Error::valid_up_to, crate::core_::valid_up_to_contract))]
            #[cfg_attr(all(kani, contracts), kani::stub(core::str::Utf8Error::error_len, crate::core_::error_len_contract))]
            $(#[cfg_attr(all(kani, contracts), kani::unwind($u))])?
            pub fn $n() $b
        )*
        pub static REG: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
}
fn any_byte() -> u8 {
    any_u32() as u8
}
of! {
    raw_cpuid::get_bits, fn c03_fn_get_bits() {
        let (r, from, to) = (any_u32(), any_u32(), any_u32());
        assume(from <= to && to <= 31);
        ck!(verif::bits(r, from, to) == bits(r, from, to), "get_bits == r[to:from]");
        reach!(from == 0 && to == 31, "the whole register");
    }
    raw_cpuid::get_bits, fn c04_fn_get_bits() { c03_fn_get_bits() }
    #[unwind(14)]
    raw_cpuid::Vendor::from_vendor_leaf, fn c01_fn_from_vendor_leaf() {
        let r = any_res();
        let v = vendor(&r);
        ck!(verif::vendor_of(r) == (v == V::Intel, v == V::Amd), "from_vendor_leaf recognises Intel and AMD (Hygon) by the 12 bytes");
        reach!(v == V::Intel, "Intel");
        reach!(v == V::Amd, "AMD");
    }
    #[unwind(14)]
    raw_cpuid::CpuId::leaf_is_supported, fn c01_fn_leaf_is_supported() {
        let m = machine([L0, X0]);
        let leaf = any_u32();
        let c = open(&m);
        ck!(verif::leaf_is_supported(&c, leaf) == supported(&m, leaf), "leaf_is_supported: within the maximum leaf and not reserved");
        reach!(leaf == 4, "a reserved leaf");
        reach!(leaf == 0x8000_0008, "an extended leaf");
    }
    raw_cpuid::Associativity::for_l1, fn c16_fn_for_l1() {
        let n = any_byte();
        ck!(verif::for_l1(n) == l1(n as u32), "for_l1 == table");
        reach!(n == 0xff, "fully associative");
    }
    raw_cpuid::Associativity::for_l2, fn c16_fn_for_l2() {
        let n = any_byte();
        ck!(verif::for_l2(n) == l2(n as u32), "for_l2 == table");
        reach!(n == 0xff, "reserved");
    }
    raw_cpuid::Associativity::for_l3, fn c16_fn_for_l3() {
        let n = any_byte();
        ck!(verif::for_l3(n) == l2(n as u32), "for_l3 == table");
        reach!(n == 0xff, "reserved");
    }
}
