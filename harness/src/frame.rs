//! C02: a query reads only the leaf/sub-leaf pairs documented for it, so every
//! value it reports is a function of those registers (read frame).
use crate::core_::*;
use crate::*;
use raw_cpuid::{CpuId, CpuIdReader};

/// `get` on a strict machine listing the frame; `then` issues sub-queries.
macro_rules! frame {
    ($get:ident [$($k:expr),*]) => { frame!($get [$($k),*] |_x| {}) };
    ($get:ident [$($k:expr),*] |$x:ident| $then:block) => {{
        let mut m = machine([L0, X0 $(, $k)*]);
        m.strict = true;
        let c = open(&m);
        if let Some($x) = c.$get() {
            reach!(true, concat!(stringify!($get), " answers"));
            $then
        }
    }};
}

fn same(a: &CpuIdResult, b: &CpuIdResult) -> bool {
    a.eax == b.eax && a.ebx == b.ebx && a.ecx == b.ecx && a.edx == b.edx
}

contracts! { REG;
    // A function used as reader is called with the leaf and sub-leaf unchanged.
    fn c02_function_reader() {
        let (l, s) = (any_u32(), any_u32());
        let m = machine([(l, s), (l, 0)]);
        let f = |eax: u32, ecx: u32| m.get(eax, ecx);
        ck!(same(&f.cpuid2(l, s), &m.get(l, s)), "CpuIdReader::cpuid2 of a function calls it with (EAX, ECX)");
        ck!(same(&f.cpuid1(l), &m.get(l, 0)), "CpuIdReader::cpuid1 reads sub-leaf 0");
        ck!(same(&m.cpuid1(l), &m.get(l, 0)), "CpuIdReader::cpuid1 reads sub-leaf 0 (reader)");
        reach!(s == 7, "a sub-leaf");
    }
    // Both constructors open the same machine.
    fn c02_constructors() {
        let m = machine([L0, X0, L1, (0x8000_0001, 0)]);
        let (a, b) = (CpuId::with_cpuid_reader(m.clone()), CpuId::with_cpuid_fn(|eax: u32, ecx: u32| m.get(eax, ecx)));
        match (a.get_feature_info(), b.get_feature_info()) {
            (Some(x), Some(y)) => {
                ck!(x.brand_index() == y.brand_index() && x.has_sse3() == y.has_sse3() && x.has_fpu() == y.has_fpu()
                    && x.family_id() == y.family_id() && x.model_id() == y.model_id(), "with_cpuid_fn and with_cpuid_reader report the same");
                reach!(true, "both answer");
            }
            (x, y) => ck!(x.is_some() == y.is_some(), "with_cpuid_fn and with_cpuid_reader answer alike"),
        }
    }
    fn c02_vendor() { frame!(get_vendor_info []); }
    fn c02_feature() { frame!(get_feature_info [L1]); }
    fn c02_cache_info() { frame!(get_cache_info [(2, 0)]); }
    fn c02_serial() { frame!(get_processor_serial [L1, (3, 0)]); }
    fn c02_cache_parameters_amd() {
        let mut m = machine([L0, X0, (0x8000_001D, 0), (0x8000_001D, 1)]);
        m.strict = true;
        assume(is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            reach!(true, "get_cache_parameters answers on AMD");
            if i.next().is_some() { let _ = i.next(); }
        }
    }
    fn c02_cache_parameters_other() {
        let mut m = machine([L0, X0, (4, 0), (4, 1)]);
        m.strict = true;
        assume(!is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            reach!(true, "get_cache_parameters answers elsewhere");
            if i.next().is_some() { let _ = i.next(); }
        }
    }
    fn c02_mwait() { frame!(get_monitor_mwait_info [(5, 0)]); }
    fn c02_thermal() { frame!(get_thermal_power_info [(6, 0)]); }
    fn c02_extended_features() { frame!(get_extended_feature_info [(7, 0), (7, 1)]); }
    fn c02_dca() { frame!(get_direct_cache_access_info [(9, 0)]); }
    fn c02_perfmon() { frame!(get_performance_monitoring_info [(0xA, 0)]); }
    fn c02_topology() {
        frame!(get_extended_topology_info [(0xB, 0), (0xB, 1)] |x| { let mut i = x; if i.next().is_some() { let _ = i.next(); } });
    }
    fn c02_topology_v2() {
        frame!(get_extended_topology_info_v2 [(0x1F, 0), (0x1F, 1)] |x| { let mut i = x; if i.next().is_some() { let _ = i.next(); } });
    }
    fn c02_xstate() { frame!(get_extended_state_info [(0xD, 0), (0xD, 1)]); }
    fn c02_rdt_monitoring() {
        frame!(get_rdt_monitoring_info [(0xF, 0), (0xF, 1)] |x| { let _ = x.l3_monitoring(); });
    }
    fn c02_rdt_allocation() {
        frame!(get_rdt_allocation_info [(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)] |x| {
            let _ = x.l3_cat(); let _ = x.l2_cat(); let _ = x.memory_bandwidth_allocation();
        });
    }
    fn c02_sgx() {
        frame!(get_sgx_info [(7, 0), (7, 1), (0x12, 0), (0x12, 1), (0x12, 2), (0x12, 3)] |x| {
            let mut i = x.iter(); if i.next().is_some() { let _ = i.next(); }
        });
    }
    fn c02_trace() { frame!(get_processor_trace_info [(0x14, 0), (0x14, 1)]); }
    fn c02_tsc() { frame!(get_tsc_info [(0x15, 0)]); }
    fn c02_frequency() { frame!(get_processor_frequency_info [(0x16, 0)]); }
    fn c02_soc() {
        frame!(get_soc_vendor_info [(0x17, 0), (0x17, 1), (0x17, 2), (0x17, 3), (0x17, 4), (0x17, 5)] |x| {
            let _ = x.get_vendor_brand();
            if let Some(mut i) = x.get_vendor_attributes() { if i.next().is_some() { let _ = i.next(); } }
        });
    }
    fn c02_dat() {
        let mut m = machine([L0, X0, (0x18, 0), (0x18, 1), (0x18, 2)]);
        m.strict = true;
        // Keep the walk inside the listed sub-leaves.
        assume(m.get(0x18, 0).eax <= 2);
        if let Some(mut i) = open(&m).get_deterministic_address_translation_info() {
            reach!(true, "get_deterministic_address_translation_info answers");
            let _ = i.next();
            let _ = i.next();
        }
    }
    fn c02_hypervisor() {
        frame!(get_hypervisor_info [L1, (0x4000_0000, 0), (0x4000_0010, 0)] |x| {
            let _ = x.identify(); let _ = x.tsc_frequency(); let _ = x.apic_frequency();
        });
    }
    fn c02_ext_identifiers() { frame!(get_extended_processor_and_feature_identifiers [(0x8000_0001, 0)]); }
    fn c02_brand_string() {
        frame!(get_processor_brand_string [(0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0)]);
    }
    fn c02_l1() { frame!(get_l1_cache_and_tlb_info [(0x8000_0005, 0)]); }
    fn c02_l2_l3() { frame!(get_l2_l3_cache_and_tlb_info [(0x8000_0006, 0)]); }
    fn c02_apm() { frame!(get_advanced_power_mgmt_info [(0x8000_0007, 0)]); }
    fn c02_capacity() { frame!(get_processor_capacity_feature_info [(0x8000_0008, 0)]); }
    fn c02_svm() { frame!(get_svm_info [(0x8000_0001, 0), (0x8000_000A, 0)]); }
    fn c02_tlb_1gb() { frame!(get_tlb_1gb_page_info [(0x8000_0019, 0)]); }
    fn c02_perf_opt() { frame!(get_performance_optimization_info [(0x8000_001A, 0)]); }
    fn c02_ibs() { frame!(get_instruction_based_sampling_capabilities [(0x8000_001B, 0)]); }
    fn c02_processor_topology() { frame!(get_processor_topology_info [(0x8000_001E, 0)]); }
    fn c02_memory_encryption() { frame!(get_memory_encryption_info [(0x8000_001F, 0)]); }
    fn c02_pqos() {
        frame!(get_pqos_extended_feature_info
               [(0x8000_0020, 0), (0x8000_0020, 1), (0x8000_0020, 2), (0x8000_0020, 3), (0x8000_0020, 5)] |x| {
            let _ = x.get_l3_memory_bandwidth_enforcement_info();
            let _ = x.get_l3_slow_memory_bandwidth_enforcement_info();
            let _ = x.get_bandwidth_monitoring_event_counters_info();
            let _ = x.get_assignable_bandwidth_monitoring_counters_info();
        });
    }
    fn c02_efi2() { frame!(get_extended_feature_identification_2 [(0x8000_0021, 0)]); }
    fn c02_perfmon_debug() { frame!(get_extended_performance_monitoring_and_debug [(0x8000_0022, 0)]); }
    fn c02_mkmem() { frame!(get_multi_key_encrypted_memory_capabilities [(0x8000_0023, 0)]); }
    fn c02_cpu_topology() {
        frame!(get_extended_cpu_topology [(0x8000_0026, 0), (0x8000_0026, 1)] |x| {
            let mut i = x; if i.next().is_some() { let _ = i.next(); }
        });
    }
}
