//! C16: encoded fields decode to the documented variant, for every encoding.
use crate::core_::*;
use crate::*;
use raw_cpuid::*;

/// L1 associativity encoding (AMD APM, Fn8000_0005).
pub fn l1(n: u32) -> Associativity {
    match n {
        0 => Associativity::Disabled,
        1 => Associativity::DirectMapped,
        0xff => Associativity::FullyAssociative,
        _ => Associativity::NWay(n as u8),
    }
}
/// L2/L3/TLB associativity encoding (AMD APM, Fn8000_0006; Intel SDM 80000006H).
pub fn l2(n: u32) -> Associativity {
    match n {
        0 => Associativity::Disabled,
        1 => Associativity::DirectMapped,
        2 => Associativity::NWay(2),
        4 => Associativity::NWay(4),
        5 => Associativity::NWay(6),
        6 => Associativity::NWay(8),
        8 => Associativity::NWay(16),
        0xa => Associativity::NWay(32),
        0xb => Associativity::NWay(48),
        0xc => Associativity::NWay(64),
        0xd => Associativity::NWay(96),
        0xe => Associativity::NWay(128),
        0xf => Associativity::FullyAssociative,
        _ => Associativity::Unknown,
    }
}

macro_rules! assoc {
    ($tag:literal, $dec:ident, $f:expr; $( $n:ident = $r:ident.$g:ident[$lo:literal..=$hi:literal]; )*) => { $(
        ck!($f.$n() == $dec(bits($r.$g, $lo, $hi)), concat!($tag, "::", stringify!($n), " decodes ", stringify!($r.$g), "[", $hi, ":", $lo, "]"));
    )* };
}

fn cache_type(n: u32) -> CacheType {
    match n {
        0 => CacheType::Null,
        1 => CacheType::Data,
        2 => CacheType::Instruction,
        3 => CacheType::Unified,
        _ => CacheType::Reserved,
    }
}

fn topology_type(n: u32) -> TopologyType {
    match n {
        1 => TopologyType::SMT,
        2 => TopologyType::Core,
        3 => TopologyType::Module,
        4 => TopologyType::Tile,
        5 => TopologyType::Die,
        _ => TopologyType::Invalid,
    }
}

contracts! { REG;
    fn c16_l1_associativity() { with_answer!([(0x8000_0005, 0)], m, f = get_l1_cache_and_tlb_info, {
        let r = m.get(0x8000_0005, 0);
        assoc!("L1CacheTlbInfo", l1, f;
            dtlb_2m_4m_associativity = r.eax[24..=31]; itlb_2m_4m_associativity = r.eax[8..=15];
            dtlb_4k_associativity = r.ebx[24..=31]; itlb_4k_associativity = r.ebx[8..=15];
            dcache_associativity = r.ecx[16..=23]; icache_associativity = r.edx[16..=23];
        );
    }); }
    fn c16_l2_l3_associativity() { with_answer!([(0x8000_0006, 0)], m, f = get_l2_l3_cache_and_tlb_info, {
        let r = m.get(0x8000_0006, 0);
        assoc!("L2And3CacheTlbInfo", l2, f;
            dtlb_2m_4m_associativity = r.eax[28..=31]; itlb_2m_4m_associativity = r.eax[12..=15];
            dtlb_4k_associativity = r.ebx[28..=31]; itlb_4k_associativity = r.ebx[12..=15];
            l2cache_associativity = r.ecx[12..=15]; l3cache_associativity = r.edx[12..=15];
        );
    }); }
    fn c16_tlb_1gb_associativity() { with_answer!([(0x8000_0019, 0)], m, f = get_tlb_1gb_page_info, {
        let r = m.get(0x8000_0019, 0);
        assoc!("Tlb1gbPageInfo", l2, f;
            dtlb_l1_1gb_associativity = r.eax[28..=31]; itlb_l1_1gb_associativity = r.eax[12..=15];
            dtlb_l2_1gb_associativity = r.ebx[28..=31]; itlb_l2_1gb_associativity = r.ebx[12..=15];
        );
    }); }
    fn c16_cache_type() {
        let m = machine([L0, X0, (4, 0)]);
        assume(!is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            if let Some(f) = i.next() {
                reach!(true, "leaf 4");
                ck!(f.cache_type() == cache_type(bits(m.get(4, 0).eax, 0, 4)), "CacheParameter::cache_type decodes r.eax[4:0]");
            }
        }
    }
    fn c16_cache_type_amd() {
        let m = machine([L0, X0, (0x8000_001D, 0)]);
        assume(is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            if let Some(f) = i.next() {
                reach!(true, "leaf 0x8000001D");
                ck!(f.cache_type() == cache_type(bits(m.get(0x8000_001D, 0).eax, 0, 4)), "CacheParameter::cache_type decodes r.eax[4:0]");
            }
        }
    }
    fn c16_dat_type() {
        let m = machine([L0, X0, (0x18, 0)]);
        assume(m.get(0x18, 0).eax == 0);
        if let Some(mut i) = open(&m).get_deterministic_address_translation_info() {
            if let Some(f) = i.next() {
                reach!(true, "leaf 0x18");
                let want = match bits(m.get(0x18, 0).edx, 0, 4) {
                    0 => DatType::Null,
                    1 => DatType::DataTLB,
                    2 => DatType::InstructionTLB,
                    3 => DatType::UnifiedTLB,
                    4 => DatType::LoadOnly,
                    5 => DatType::StoreOnly,
                    _ => DatType::Unknown,
                };
                ck!(f.cache_type() == want, "DatInfo::cache_type decodes r.edx[4:0]");
            }
        }
    }
    fn c16_topology_type() { with_answer!([(0xB, 0)], m, i = get_extended_topology_info, {
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "leaf 0xB");
            ck!(f.level_type() == topology_type(bits(m.get(0xB, 0).ecx, 8, 15)), "ExtendedTopologyLevel::level_type decodes r.ecx[15:8]");
        }
    }); }
    fn c16_topology_type_v2() { with_answer!([(0x1F, 0)], m, i = get_extended_topology_info_v2, {
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "leaf 0x1F");
            ck!(f.level_type() == topology_type(bits(m.get(0x1F, 0).ecx, 8, 15)), "ExtendedTopologyLevel::level_type decodes r.ecx[15:8]");
        }
    }); }
    fn c16_hierarchy_level() { with_answer!([(0x8000_0026, 0)], m, i = get_extended_cpu_topology, {
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "leaf 0x80000026");
            let want = match bits(m.get(0x8000_0026, 0).ecx, 8, 15) {
                0 => HierarchyLevelType::Reserved,
                1 => HierarchyLevelType::Core,
                2 => HierarchyLevelType::Complex,
                3 => HierarchyLevelType::Die,
                4 => HierarchyLevelType::Socket,
                n => HierarchyLevelType::Unknown(n as u8),
            };
            ck!(f.level_type() == want, "ExtendedCpuTopologyLevel::level_type decodes r.ecx[15:8]");
        }
    }); }
    fn c16_register_type() {
        let n = any_u32();
        let want = match n {
            2 => ExtendedRegisterType::Avx,
            3 => ExtendedRegisterType::MpxBndregs,
            4 => ExtendedRegisterType::MpxBndcsr,
            5 => ExtendedRegisterType::Avx512Opmask,
            6 => ExtendedRegisterType::Avx512ZmmHi256,
            7 => ExtendedRegisterType::Avx512ZmmHi16,
            8 => ExtendedRegisterType::Pt,
            9 => ExtendedRegisterType::Pkru,
            13 => ExtendedRegisterType::Hdc,
            n => ExtendedRegisterType::Unknown(n),
        };
        ck!(ExtendedRegisterType::from(n) == want, "ExtendedRegisterType::from decodes the component number");
        reach!(n == 13, "hdc");
    }
}
