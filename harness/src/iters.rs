//! C09 cache parameters, C10 topology levels, C12 address translation and EPC
//! sections, C13 SoC attributes: the iterators report consecutive sub-leaves
//! until the documented end. These contracts walk the public API from the first
//! sub-leaf; `induct.rs` lifts them to walks of any length.
use crate::core_::*;
use crate::*;
use raw_cpuid::*;

/// Steps of the public walks (the bound of these contracts).
pub const STEPS: u32 = 5;

macro_rules! walk {
    ($m:ident, $i:ident, $leaf:expr, $valid:expr, $same:ident, $what:literal) => {{
        let mut n = 0;
        let mut done = false;
        while n < STEPS && !done {
            let r = $m.get($leaf, n);
            match $i.next() {
                Some(x) => {
                    ck!($valid(&r), concat!($what, ": an item is a valid sub-leaf"));
                    $same(&x, &r);
                    reach!(n + 1 == STEPS, concat!($what, ": a long walk"));
                }
                None => {
                    ck!(!$valid(&r), concat!($what, ": the walk ends at the first invalid sub-leaf only"));
                    reach!(n == 2, concat!($what, ": a walk of two"));
                    done = true;
                }
            }
            n += 1;
        }
    }};
}

pub fn cache_valid(r: &CpuIdResult) -> bool {
    let t = bits(r.eax, 0, 4);
    t >= 1 && t <= 3
}
pub fn cache_same(x: &CacheParameter, r: &CpuIdResult) {
    ck!(x.level() as u32 == bits(r.eax, 5, 7), "cache parameter: EAX of its sub-leaf (level)");
    ck!(x.max_cores_for_package() as u32 == bits(r.eax, 26, 31) + 1, "cache parameter: EAX of its sub-leaf (cores)");
    ck!(x.coherency_line_size() as u32 == bits(r.ebx, 0, 11) + 1, "cache parameter: EBX of its sub-leaf (line size)");
    ck!(x.associativity() as u32 == bits(r.ebx, 22, 31) + 1, "cache parameter: EBX of its sub-leaf (ways)");
    ck!(x.sets() as u64 == r.ecx as u64 + 1, "cache parameter: ECX of its sub-leaf");
    ck!(x.is_inclusive() == bit(r.edx, 1), "cache parameter: EDX of its sub-leaf");
}
pub fn level_valid(r: &CpuIdResult) -> bool {
    let t = bits(r.ecx, 8, 15);
    t >= 1 && t <= 5
}
pub fn level_same(x: &ExtendedTopologyLevel, r: &CpuIdResult) {
    ck!(x.shift_right_for_next_apic_id() == bits(r.eax, 0, 4), "topology level: EAX of its sub-leaf");
    ck!(x.processors() as u32 == bits(r.ebx, 0, 15), "topology level: EBX of its sub-leaf");
    ck!(x.level_number() as u32 == bits(r.ecx, 0, 7), "topology level: ECX of its sub-leaf");
    ck!(x.x2apic_id() == r.edx, "topology level: EDX of its sub-leaf");
}
pub fn cpu_level_valid(r: &CpuIdResult) -> bool {
    bits(r.ecx, 8, 15) != 0
}
pub fn cpu_level_same(x: &ExtendedCpuTopologyLevel, r: &CpuIdResult) {
    ck!(x.mask_width() as u32 == bits(r.eax, 0, 4), "cpu topology level: EAX of its sub-leaf");
    ck!(x.num_logical_processors() as u32 == bits(r.ebx, 0, 15), "cpu topology level: EBX of its sub-leaf");
    ck!(x.input_ecx() as u32 == bits(r.ecx, 0, 7), "cpu topology level: ECX of its sub-leaf");
    ck!(x.extended_apic_id() == r.edx, "cpu topology level: EDX of its sub-leaf");
}
pub fn epc_valid(r: &CpuIdResult) -> bool {
    bits(r.eax, 0, 3) == 1
}
pub fn epc_same(x: &SgxSectionInfo, r: &CpuIdResult) {
    let SgxSectionInfo::Epc(s) = x;
    ck!(s.physical_base() == epc_address(r.eax, r.ebx), "EPC section: base from EBX:EAX of its sub-leaf");
    ck!(s.size() == epc_address(r.ecx, r.edx), "EPC section: size from EDX:ECX of its sub-leaf");
}
/// Bits 31:12 of the low register and 51:32 of the high one.
pub fn epc_address(lo: u32, hi: u32) -> u64 {
    ((bits(lo, 12, 31) as u64) << 12) | ((bits(hi, 0, 19) as u64) << 32)
}
pub fn dat_valid(r: &CpuIdResult) -> bool {
    bits(r.edx, 0, 4) != 0
}
pub fn dat_same(x: &DatInfo, r: &CpuIdResult) {
    ck!(x.ways() as u32 == bits(r.ebx, 16, 31), "translation structure: EBX of its sub-leaf");
    ck!(x.sets() == r.ecx, "translation structure: ECX of its sub-leaf");
    ck!(x.max_addressable_ids() as u32 == bits(r.edx, 14, 25) + 1, "translation structure: EDX of its sub-leaf (ids)");
    ck!(x.cache_level() as u32 == bits(r.edx, 5, 7), "translation structure: EDX of its sub-leaf (level)");
}

/// `machine` with sub-leaves 0..6 of one leaf.
macro_rules! subleaves {
    ($leaf:expr) => {
        machine([L0, X0, ($leaf, 0), ($leaf, 1), ($leaf, 2), ($leaf, 3), ($leaf, 4), ($leaf, 5)])
    };
}

contracts! { REG;
    fn c09_walk_intel() {
        let m = subleaves!(4);
        assume(!is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            walk!(m, i, 4, cache_valid, cache_same, "cache parameters");
        }
    }
    fn c09_walk_amd() {
        let m = subleaves!(0x8000_001D);
        assume(is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            walk!(m, i, 0x8000_001D, cache_valid, cache_same, "cache parameters (AMD)");
        }
    }
    fn c10_walk() {
        let m = subleaves!(0xB);
        if let Some(mut i) = open(&m).get_extended_topology_info() {
            walk!(m, i, 0xB, level_valid, level_same, "topology");
        }
    }
    fn c10_walk_v2() {
        let m = subleaves!(0x1F);
        if let Some(mut i) = open(&m).get_extended_topology_info_v2() {
            walk!(m, i, 0x1F, level_valid, level_same, "topology v2");
        }
    }
    fn c10_walk_cpu_topology() {
        let m = subleaves!(0x8000_0026);
        if let Some(mut i) = open(&m).get_extended_cpu_topology() {
            walk!(m, i, 0x8000_0026, cpu_level_valid, cpu_level_same, "cpu topology");
        }
    }
    fn c12_walk_epc() {
        let m = machine([L0, X0, (7, 0), (0x12, 2), (0x12, 3), (0x12, 4), (0x12, 5), (0x12, 6)]);
        if let Some(s) = open(&m).get_sgx_info() {
            let mut i = s.iter();
            let mut n = 2;
            let mut done = false;
            while n < 2 + STEPS && !done {
                let r = m.get(0x12, n);
                match i.next() {
                    Some(x) => {
                        ck!(epc_valid(&r), "EPC sections: an item is a valid sub-leaf");
                        epc_same(&x, &r);
                        reach!(n == 1 + STEPS, "EPC sections: a long walk");
                    }
                    None => {
                        ck!(!epc_valid(&r), "EPC sections: the walk ends at the first invalid sub-leaf only");
                        done = true;
                    }
                }
                n += 1;
            }
        }
    }
    // Every valid sub-leaf 0..=max, skipping any number of invalid ones.
    fn c12_walk_dat() {
        let m = machine([L0, X0, (0x18, 0), (0x18, 1), (0x18, 2), (0x18, 3)]);
        let max = m.get(0x18, 0).eax;
        assume(max <= 3);
        if let Some(mut i) = open(&m).get_deterministic_address_translation_info() {
            let mut n = 0;
            while n <= max {
                let r = m.get(0x18, n);
                if dat_valid(&r) {
                    match i.next() {
                        Some(x) => { dat_same(&x, &r); reach!(n == 3, "address translation: the last sub-leaf"); }
                        None => ck!(false, "address translation: no valid sub-leaf is missing"),
                    }
                } else {
                    reach!(n == 2, "address translation: an invalid sub-leaf inside");
                }
                n += 1;
            }
            ck!(i.next().is_none(), "address translation: nothing beyond the last sub-leaf");
            ck!(i.next().is_none(), "address translation: the end is final");
        }
    }
    // Sub-leaves 4..=max, and attributes exist exactly when max > 3.
    fn c13_walk_attributes() {
        let m = machine([L0, X0, (0x17, 0), (0x17, 4), (0x17, 5), (0x17, 6), (0x17, 7)]);
        let max = m.get(0x17, 0).eax;
        if let Some(s) = open(&m).get_soc_vendor_info() {
            match s.get_vendor_attributes() {
                None => {
                    ck!(max <= 3, "SoC attributes: available if the maximum sub-leaf exceeds 3");
                    reach!(true, "SoC attributes: none");
                }
                Some(mut i) => {
                    ck!(max > 3, "SoC attributes: available only if the maximum sub-leaf exceeds 3");
                    let mut n = 4;
                    let mut done = false;
                    while n < 8 && !done {
                        match i.next() {
                            Some(x) => {
                                ck!(n <= max, "SoC attributes: nothing beyond the last sub-leaf");
                                ck!(x == m.get(0x17, n), "SoC attributes: the registers of the sub-leaf");
                                reach!(n == 7, "SoC attributes: four");
                            }
                            None => {
                                ck!(n > max, "SoC attributes: no sub-leaf is missing");
                                reach!(n == 6, "SoC attributes: two");
                                done = true;
                            }
                        }
                        n += 1;
                    }
                }
            }
        }
    }
    fn c13_brand_gate() { with_answer!([(0x17, 0)], m, s = get_soc_vendor_info, {
        let max = m.get(0x17, 0).eax;
        ck!(s.get_vendor_brand().is_some() == (max >= 3), "SoC brand: available iff the maximum sub-leaf is at least 3");
        reach!(max == 3, "brand at the limit");
    }); }
}
