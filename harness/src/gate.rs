//! C01: a query answers exactly when the machine reports the leaf(s) it needs.
use crate::core_::*;
use crate::*;

macro_rules! gate {
    ($m:ident, $c:ident; $( $get:ident if $leaf:literal $(and $l2:literal)*; )*) => { $(
        ck!($c.$get().is_some() == (supported(&$m, $leaf) $(&& supported(&$m, $l2))*),
            concat!(stringify!($get), " answers iff leaf ", $leaf, $(" and ", $l2,)* " is supported"));
        reach!($c.$get().is_some() && is_amd(&$m) , concat!(stringify!($get), " on AMD"));
    )* };
}
macro_rules! gate_intel {
    ($m:ident, $c:ident; $( $get:ident if $leaf:literal; )*) => { $(
        ck!($c.$get().is_some() == supported(&$m, $leaf),
            concat!(stringify!($get), " answers iff leaf ", $leaf, " is supported"));
        ck!(!(is_amd(&$m) && $c.$get().is_some()), concat!(stringify!($get), " is reserved on AMD"));
        reach!($c.$get().is_some(), stringify!($get));
    )* };
}

contracts! { REG;
    fn c01_gate_basic_low() {
        let m = machine([L0, X0]);
        let c = open(&m);
        gate!(m, c;
            get_vendor_info if 0;
            get_feature_info if 1;
            get_monitor_mwait_info if 5;
            get_thermal_power_info if 6;
            get_extended_feature_info if 7;
            get_extended_topology_info if 0xB;
            get_extended_state_info if 0xD;
            get_rdt_monitoring_info if 0xF;
            get_rdt_allocation_info if 0x10;
        );
    }
    fn c01_gate_basic_intel_only() {
        let m = machine([L0, X0]);
        let c = open(&m);
        gate_intel!(m, c;
            get_cache_info if 2;
            get_processor_serial if 3;
            get_direct_cache_access_info if 9;
            get_performance_monitoring_info if 0xA;
        );
    }
    fn c01_gate_basic_high() {
        let m = machine([L0, X0]);
        let c = open(&m);
        gate!(m, c;
            get_processor_trace_info if 0x14;
            get_tsc_info if 0x15;
            get_processor_frequency_info if 0x16;
            get_soc_vendor_info if 0x17;
            get_deterministic_address_translation_info if 0x18;
            get_extended_topology_info_v2 if 0x1F;
        );
    }
    fn c01_gate_extended() {
        let m = machine([L0, X0]);
        let c = open(&m);
        gate!(m, c;
            get_extended_processor_and_feature_identifiers if 0x8000_0001;
            get_processor_brand_string if 0x8000_0002 and 0x8000_0003 and 0x8000_0004;
            get_l2_l3_cache_and_tlb_info if 0x8000_0006;
            get_advanced_power_mgmt_info if 0x8000_0007;
            get_processor_capacity_feature_info if 0x8000_0008;
            get_tlb_1gb_page_info if 0x8000_0019;
            get_performance_optimization_info if 0x8000_001A;
            get_instruction_based_sampling_capabilities if 0x8000_001B;
            get_processor_topology_info if 0x8000_001E;
        );
    }
    fn c01_gate_extended_high() {
        let m = machine([L0, X0]);
        let c = open(&m);
        gate!(m, c;
            get_memory_encryption_info if 0x8000_001F;
            get_pqos_extended_feature_info if 0x8000_0020;
            get_extended_feature_identification_2 if 0x8000_0021;
            get_extended_performance_monitoring_and_debug if 0x8000_0022;
            get_multi_key_encrypted_memory_capabilities if 0x8000_0023;
            get_extended_cpu_topology if 0x8000_0026;
        );
    }
    fn c01_gate_l1_cache_amd_only() {
        let m = machine([L0, X0]);
        let c = open(&m);
        ck!(c.get_l1_cache_and_tlb_info().is_some() == (is_amd(&m) && supported(&m, 0x8000_0005)),
            "get_l1_cache_and_tlb_info answers iff AMD and leaf 0x80000005 is supported");
        reach!(c.get_l1_cache_and_tlb_info().is_some(), "l1 cache info answers");
    }
    fn c01_gate_cache_parameters() {
        let m = machine([L0, X0]);
        let c = open(&m);
        let want = if is_amd(&m) { supported(&m, 0x8000_001D) } else { supported(&m, 4) };
        ck!(c.get_cache_parameters().is_some() == want,
            "get_cache_parameters answers iff leaf 4 (0x8000001D on AMD) is supported");
        reach!(c.get_cache_parameters().is_some() && is_amd(&m), "cache parameters on AMD");
        reach!(c.get_cache_parameters().is_some() && !is_amd(&m), "cache parameters elsewhere");
    }
    fn c01_gate_sgx() {
        let m = machine([L0, X0, (7, 0)]);
        let c = open(&m);
        let want = supported(&m, 7) && supported(&m, 0x12) && bit(m.get(7, 0).ebx, 2);
        ck!(c.get_sgx_info().is_some() == want,
            "get_sgx_info answers iff leaves 7 and 0x12 are supported and leaf 7 reports SGX");
        reach!(c.get_sgx_info().is_some(), "sgx answers");
        reach!(c.get_sgx_info().is_none() && supported(&m, 0x12), "sgx leaf without SGX");
    }
    fn c01_gate_svm() {
        let m = machine([L0, X0, (0x8000_0001, 0)]);
        let c = open(&m);
        let want = is_amd(&m) && supported(&m, 0x8000_0001) && supported(&m, 0x8000_000A)
            && bit(m.get(0x8000_0001, 0).ecx, 2);
        ck!(c.get_svm_info().is_some() == want,
            "get_svm_info answers iff AMD, leaf 0x8000000A is supported and leaf 0x80000001 reports SVM");
        reach!(c.get_svm_info().is_some(), "svm answers");
    }
    fn c01_gate_hypervisor() {
        let m = machine([L0, X0, L1, (0x4000_0000, 0)]);
        let c = open(&m);
        let want = supported(&m, 1) && bit(m.get(1, 0).ecx, 31) && m.get(0x4000_0000, 0).eax > 0;
        ck!(c.get_hypervisor_info().is_some() == want,
            "get_hypervisor_info answers iff leaf 1 reports a hypervisor and leaf 0x40000000 a maximum leaf");
        reach!(c.get_hypervisor_info().is_some(), "hypervisor answers");
    }
}
