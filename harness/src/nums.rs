//! C03 / C04: numeric accessors equal the documented bit field, for every
//! register content. C03: basic leaves. C04: extended leaves.
use crate::core_::*;
use crate::*;

contracts! { REG;
    fn c03_feature_info() { with_answer!([L1], m, f = get_feature_info, {
        let r = m.get(1, 0);
        nums!("FeatureInfo", f;
            stepping_id = r.eax[0..=3];
            base_model_id = r.eax[4..=7];
            base_family_id = r.eax[8..=11];
            extended_model_id = r.eax[16..=19];
            extended_family_id = r.eax[20..=27];
            brand_index = r.ebx[0..=7];
            cflush_cache_line_size = r.ebx[8..=15];
            max_logical_processor_ids = r.ebx[16..=23];
            initial_local_apic_id = r.ebx[24..=31];
        );
    }); }
    fn c03_serial() { with_answer!([L1, (3, 0)], m, f = get_processor_serial, {
        let (r1, r) = (m.get(1, 0), m.get(3, 0));
        nums!("ProcessorSerial", f;
            serial_lower = r.ecx[0..=31];
            serial_middle = r.edx[0..=31];
            serial_upper = r1.eax[0..=31];
        );
    }); }
    fn c03_cache_parameter_intel() {
        let m = machine([L0, X0, (4, 0)]);
        assume(!is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            if let Some(f) = i.next() {
                reach!(true, "a cache parameter is reported (leaf 4)");
                cache_parameter(&f, m.get(4, 0));
            }
        }
    }
    fn c03_cache_parameter_amd() {
        let m = machine([L0, X0, (0x8000_001D, 0)]);
        assume(is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            if let Some(f) = i.next() {
                reach!(true, "a cache parameter is reported (leaf 0x8000001D)");
                cache_parameter(&f, m.get(0x8000_001D, 0));
            }
        }
    }
    fn c03_mwait() { with_answer!([(5, 0)], m, f = get_monitor_mwait_info, {
        let r = m.get(5, 0);
        nums!("MonitorMwaitInfo", f;
            smallest_monitor_line = r.eax[0..=15];
            largest_monitor_line = r.ebx[0..=15];
            supported_c0_states = r.edx[0..=3];
            supported_c1_states = r.edx[4..=7];
            supported_c2_states = r.edx[8..=11];
            supported_c3_states = r.edx[12..=15];
            supported_c4_states = r.edx[16..=19];
            supported_c5_states = r.edx[20..=23];
            supported_c6_states = r.edx[24..=27];
            supported_c7_states = r.edx[28..=31];
        );
    }); }
    fn c03_thermal() { with_answer!([(6, 0)], m, f = get_thermal_power_info, {
        let r = m.get(6, 0);
        nums!("ThermalPowerInfo", f; dts_irq_threshold = r.ebx[0..=3];);
    }); }
    fn c03_extended_features() { with_answer!([(7, 0), (7, 1)], m, f = get_extended_feature_info, {
        let r = m.get(7, 0);
        nums!("ExtendedFeatures", f; mawau_value = r.ecx[17..=21];);
    }); }
    fn c03_dca() { with_answer!([(9, 0)], m, f = get_direct_cache_access_info, {
        let r = m.get(9, 0);
        nums!("DirectCacheAccessInfo", f; get_dca_cap_value = r.eax[0..=31];);
    }); }
    fn c03_perfmon() { with_answer!([(0xA, 0)], m, f = get_performance_monitoring_info, {
        let r = m.get(0xA, 0);
        nums!("PerformanceMonitoringInfo", f;
            version_id = r.eax[0..=7];
            number_of_counters = r.eax[8..=15];
            counter_bit_width = r.eax[16..=23];
            ebx_length = r.eax[24..=31];
            fixed_function_counters = r.edx[0..=4];
            fixed_function_counters_bit_width = r.edx[5..=12];
        );
    }); }
    fn c03_topology_level() { with_answer!([(0xB, 0)], m, i = get_extended_topology_info, {
        let mut i = i;
        if let Some(f) = i.next() { reach!(true, "level"); topology_level(&f, m.get(0xB, 0)); }
    }); }
    fn c03_topology_level_v2() { with_answer!([(0x1F, 0)], m, i = get_extended_topology_info_v2, {
        let mut i = i;
        if let Some(f) = i.next() { reach!(true, "level"); topology_level(&f, m.get(0x1F, 0)); }
    }); }
    fn c03_xstate() { with_answer!([(0xD, 0), (0xD, 1), (0xD, 2)], m, f = get_extended_state_info, {
        let (r, r1, r2) = (m.get(0xD, 0), m.get(0xD, 1), m.get(0xD, 2));
        nums!("ExtendedStateInfo", f;
            xsave_area_size_enabled_features = r.ebx[0..=31];
            xsave_area_size_supported_features = r.ecx[0..=31];
            xsave_size = r1.ebx[0..=31];
        );
        // AVX state (component 2), when the machine reports it.
        if bit(r.eax, 2) {
            if let Some(s) = f.iter().next() {
                reach!(true, "state component 2");
                nums!("ExtendedState", s; size = r2.eax[0..=31]; offset = r2.ebx[0..=31];);
            }
        }
    }); }
    fn c03_rdt_monitoring() { with_answer!([(0xF, 0), (0xF, 1)], m, f = get_rdt_monitoring_info, {
        let (r, r1) = (m.get(0xF, 0), m.get(0xF, 1));
        nums!("RdtMonitoringInfo", f; rmid_range = r.ebx[0..=31];);
        if let Some(l) = f.l3_monitoring() {
            reach!(true, "l3 monitoring");
            nums!("L3MonitoringInfo", l; conversion_factor = r1.ebx[0..=31]; maximum_rmid_range = r1.ecx[0..=31];);
        }
    }); }
    fn c03_rdt_allocation() { with_answer!([(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)], m, f = get_rdt_allocation_info, {
        let (r1, r2, r3) = (m.get(0x10, 1), m.get(0x10, 2), m.get(0x10, 3));
        if let Some(l) = f.l3_cat() {
            reach!(true, "l3 cat");
            nums!("L3CatInfo", l; capacity_mask_length = r1.eax[0..=4] + 1; isolation_bitmap = r1.ebx[0..=31]; highest_cos = r1.edx[0..=15];);
        }
        if let Some(l) = f.l2_cat() {
            reach!(true, "l2 cat");
            nums!("L2CatInfo", l; capacity_mask_length = r2.eax[0..=4] + 1; isolation_bitmap = r2.ebx[0..=31]; highest_cos = r2.edx[0..=15];);
        }
        if let Some(l) = f.memory_bandwidth_allocation() {
            reach!(true, "mba");
            nums!("MemBwAllocationInfo", l; max_hba_throttling = r3.eax[0..=11] + 1; highest_cos = r3.edx[0..=15];);
        }
    }); }
    fn c03_sgx() { with_answer!([(7, 0), (0x12, 0)], m, f = get_sgx_info, {
        let r = m.get(0x12, 0);
        nums!("SgxInfo", f;
            miscselect = r.ebx[0..=31];
            max_enclave_size_non_64bit = r.edx[0..=7];
            max_enclave_size_64bit = r.edx[8..=15];
        );
    }); }
    fn c03_trace() { with_answer!([(0x14, 0), (0x14, 1)], m, f = get_processor_trace_info, {
        let (r, r1) = (m.get(0x14, 0), m.get(0x14, 1));
        if r.eax >= 1 {
            reach!(true, "trace sub-leaf 1");
            nums!("ProcessorTraceInfo", f;
                configurable_address_ranges = r1.eax[0..=2];
                supported_mtc_period_encodings = r1.eax[16..=31];
                supported_cycle_threshold_value_encodings = r1.ebx[0..=15];
                supported_psb_frequency_encodings = r1.ebx[16..=31];
            );
        } else {
            reach!(true, "no trace sub-leaf 1");
            ck!(f.configurable_address_ranges() == 0, "ProcessorTraceInfo::configurable_address_ranges == 0 without sub-leaf 1");
            ck!(f.supported_mtc_period_encodings() == 0, "ProcessorTraceInfo::supported_mtc_period_encodings == 0 without sub-leaf 1");
            ck!(f.supported_cycle_threshold_value_encodings() == 0, "ProcessorTraceInfo::supported_cycle_threshold_value_encodings == 0 without sub-leaf 1");
            ck!(f.supported_psb_frequency_encodings() == 0, "ProcessorTraceInfo::supported_psb_frequency_encodings == 0 without sub-leaf 1");
        }
    }); }
    fn c03_tsc() { with_answer!([(0x15, 0)], m, f = get_tsc_info, {
        let r = m.get(0x15, 0);
        nums!("TscInfo", f; denominator = r.eax[0..=31]; numerator = r.ebx[0..=31]; nominal_frequency = r.ecx[0..=31];);
    }); }
    fn c03_frequency() { with_answer!([(0x16, 0)], m, f = get_processor_frequency_info, {
        let r = m.get(0x16, 0);
        nums!("ProcessorFrequencyInfo", f;
            processor_base_frequency = r.eax[0..=15]; processor_max_frequency = r.ebx[0..=15]; bus_frequency = r.ecx[0..=15];);
    }); }
    fn c03_dat() {
        let m = machine([L0, X0, (0x18, 0), (0x18, 1)]);
        assume(m.get(0x18, 0).eax <= 1);
        assume(m.get(0x18, 0).edx & 0x1f != 0);
        if let Some(mut i) = open(&m).get_deterministic_address_translation_info() {
            if let Some(f) = i.next() {
                reach!(true, "a translation structure is reported");
                let r = m.get(0x18, 0);
                nums!("DatInfo", f;
                    partitioning = r.ebx[8..=10]; ways = r.ebx[16..=31]; sets = r.ecx[0..=31];
                    cache_level = r.edx[5..=7]; max_addressable_ids = r.edx[14..=25] + 1;);
            }
        }
    }
    fn c03_soc() { with_answer!([(0x17, 0)], m, f = get_soc_vendor_info, {
        let r = m.get(0x17, 0);
        nums!("SoCVendorInfo", f;
            get_soc_vendor_id = r.ebx[0..=15]; get_project_id = r.ecx[0..=31]; get_stepping_id = r.edx[0..=31];);
    }); }

    fn c04_identifiers() { with_answer!([(0x8000_0001, 0)], m, f = get_extended_processor_and_feature_identifiers, {
        let r = m.get(0x8000_0001, 0);
        nums!("ExtendedProcessorFeatureIdentifiers", f;
            extended_signature = r.eax[0..=31]; pkg_type = r.ebx[28..=31]; brand_id = r.ebx[0..=15];);
    }); }
    fn c04_l1() { with_answer!([(0x8000_0005, 0)], m, f = get_l1_cache_and_tlb_info, {
        let r = m.get(0x8000_0005, 0);
        nums!("L1CacheTlbInfo", f;
            dtlb_2m_4m_size = r.eax[16..=23]; itlb_2m_4m_size = r.eax[0..=7];
            dtlb_4k_size = r.ebx[16..=23]; itlb_4k_size = r.ebx[0..=7];
            dcache_size = r.ecx[24..=31]; dcache_lines_per_tag = r.ecx[8..=15]; dcache_line_size = r.ecx[0..=7];
            icache_size = r.edx[24..=31]; icache_lines_per_tag = r.edx[8..=15]; icache_line_size = r.edx[0..=7];
        );
    }); }
    fn c04_l2_l3() { with_answer!([(0x8000_0006, 0)], m, f = get_l2_l3_cache_and_tlb_info, {
        let r = m.get(0x8000_0006, 0);
        nums!("L2And3CacheTlbInfo", f;
            dtlb_2m_4m_size = r.eax[16..=27]; itlb_2m_4m_size = r.eax[0..=11];
            dtlb_4k_size = r.ebx[16..=27]; itlb_4k_size = r.ebx[0..=11];
            l2cache_line_size = r.ecx[0..=7]; l2cache_lines_per_tag = r.ecx[8..=11]; l2cache_size = r.ecx[16..=31];
            l3cache_line_size = r.edx[0..=7]; l3cache_lines_per_tag = r.edx[8..=11]; l3cache_size = r.edx[18..=31];
        );
    }); }
    fn c04_apm() { with_answer!([(0x8000_0007, 0)], m, f = get_advanced_power_mgmt_info, {
        let r = m.get(0x8000_0007, 0);
        nums!("ApmInfo", f; cpu_pwr_sample_time_ratio = r.ecx[0..=31];);
    }); }
    fn c04_capacity() { with_answer!([(0x8000_0008, 0)], m, f = get_processor_capacity_feature_info, {
        let r = m.get(0x8000_0008, 0);
        nums!("ProcessorCapacityAndFeatureInfo", f;
            physical_address_bits = r.eax[0..=7]; linear_address_bits = r.eax[8..=15]; guest_physical_address_bits = r.eax[16..=23];
            num_phys_threads = r.ecx[0..=7] + 1; apic_id_size = r.ecx[12..=15];
            invlpgb_max_pages = r.edx[0..=15]; max_rdpru_id = r.edx[16..=31];
        );
        let s = bits(r.ecx, 16, 17);
        ck!(f.perf_tsc_size() as u64 == 40 + 8 * s as u64, "ProcessorCapacityAndFeatureInfo::perf_tsc_size == 40/48/56/64 by r.ecx[17:16]");
        let n = bits(r.ecx, 12, 15);
        ck!(n == 0 || f.maximum_logical_processors() as u64 == 1u64 << n,
            "ProcessorCapacityAndFeatureInfo::maximum_logical_processors == 2^r.ecx[15:12]");
    }); }
    fn c04_svm() { with_answer!([(0x8000_0001, 0), (0x8000_000A, 0)], m, f = get_svm_info, {
        let r = m.get(0x8000_000A, 0);
        nums!("SvmFeatures", f; revision = r.eax[0..=7]; supported_asids = r.ebx[0..=31];);
    }); }
    fn c04_tlb_1gb() { with_answer!([(0x8000_0019, 0)], m, f = get_tlb_1gb_page_info, {
        let r = m.get(0x8000_0019, 0);
        // The fields are 12 bits wide but the accessors return 8: see known-findings.
        ck!(f.dtlb_l1_1gb_size() as u32 & 0xff == bits(r.eax, 16, 23), "Tlb1gbPageInfo::dtlb_l1_1gb_size agrees with r.eax[27:16] (low byte)");
        ck!(f.itlb_l1_1gb_size() as u32 & 0xff == bits(r.eax, 0, 7), "Tlb1gbPageInfo::itlb_l1_1gb_size agrees with r.eax[11:0] (low byte)");
        ck!(f.dtlb_l2_1gb_size() as u32 & 0xff == bits(r.ebx, 16, 23), "Tlb1gbPageInfo::dtlb_l2_1gb_size agrees with r.ebx[27:16] (low byte)");
        ck!(f.itlb_l2_1gb_size() as u32 & 0xff == bits(r.ebx, 0, 7), "Tlb1gbPageInfo::itlb_l2_1gb_size agrees with r.ebx[11:0] (low byte)");
    }); }
    fn c04_tlb_1gb_full_width() { with_answer!([(0x8000_0019, 0)], m, f = get_tlb_1gb_page_info, {
        let r = m.get(0x8000_0019, 0);
        nums!("Tlb1gbPageInfo", f;
            dtlb_l1_1gb_size = r.eax[16..=27]; itlb_l1_1gb_size = r.eax[0..=11];
            dtlb_l2_1gb_size = r.ebx[16..=27]; itlb_l2_1gb_size = r.ebx[0..=11];
        );
    }); }
    fn c04_processor_topology() { with_answer!([(0x8000_001E, 0)], m, f = get_processor_topology_info, {
        let r = m.get(0x8000_001E, 0);
        nums!("ProcessorTopologyInfo", f;
            x2apic_id = r.eax[0..=31]; core_id = r.ebx[0..=7];
            node_id = r.ecx[0..=7]; nodes_per_processor = r.ecx[8..=10] + 1;
        );
        // 256 does not fit the 8-bit result.
        ck!(bits(r.ebx, 8, 15) == 255 || f.threads_per_core() as u32 == bits(r.ebx, 8, 15) + 1,
            "ProcessorTopologyInfo::threads_per_core == r.ebx[15:8] + 1");
    }); }
    fn c04_memory_encryption() { with_answer!([(0x8000_001F, 0)], m, f = get_memory_encryption_info, {
        let r = m.get(0x8000_001F, 0);
        nums!("MemoryEncryptionInfo", f;
            c_bit_position = r.ebx[0..=5]; physical_address_reduction = r.ebx[6..=11];
            max_encrypted_guests = r.ecx[0..=31]; min_sev_no_es_asid = r.edx[0..=31];
        );
    }); }
    fn c04_pqos() { with_answer!([(0x8000_0020, 0), (0x8000_0020, 1), (0x8000_0020, 2), (0x8000_0020, 3), (0x8000_0020, 5)],
        m, f = get_pqos_extended_feature_info, {
        let (r1, r2, r3, r5) = (m.get(0x8000_0020, 1), m.get(0x8000_0020, 2), m.get(0x8000_0020, 3), m.get(0x8000_0020, 5));
        if let Some(l) = f.get_l3_memory_bandwidth_enforcement_info() {
            reach!(true, "l3mbe");
            nums!("L3MBE", l; bandwidth_length = r1.eax[0..=31]; cos_max = r1.edx[0..=31];);
        }
        if let Some(l) = f.get_l3_slow_memory_bandwidth_enforcement_info() {
            reach!(true, "l3smbe");
            nums!("L3SMBE", l; bandwidth_length = r2.eax[0..=31]; cos_max = r2.edx[0..=31];);
        }
        if let Some(l) = f.get_bandwidth_monitoring_event_counters_info() {
            reach!(true, "bmec");
            nums!("BMEC", l; number_events = r3.ebx[0..=7];);
        }
        if let Some(l) = f.get_assignable_bandwidth_monitoring_counters_info() {
            reach!(true, "abmc");
            nums!("ABMC", l; counter_size = r5.eax[0..=7]; max_abmc = r5.ebx[0..=15];);
        }
    }); }
    fn c04_efi2() { with_answer!([(0x8000_0021, 0)], m, f = get_extended_feature_identification_2, {
        let r = m.get(0x8000_0021, 0);
        nums!("ExtendedFeatureIdentification2", f; microcode_patch_size = r.ebx[0..=11];);
    }); }
    fn c04_perfmon_debug() { with_answer!([(0x8000_0022, 0)], m, f = get_extended_performance_monitoring_and_debug, {
        let r = m.get(0x8000_0022, 0);
        nums!("ExtendedPerformanceMonitoringDebug", f;
            num_perf_ctr_core = r.ebx[0..=3]; num_lbr_stack_size = r.ebx[4..=9]; num_perf_ctr_nb = r.ebx[10..=15];);
    }); }
    fn c04_mkmem() { with_answer!([(0x8000_0023, 0)], m, f = get_multi_key_encrypted_memory_capabilities, {
        let r = m.get(0x8000_0023, 0);
        nums!("MultiKeyEncryptedMemoryCapabilities", f; max_mem_hmk_encr_key_id = r.ebx[0..=15];);
    }); }
    fn c04_cpu_topology() { with_answer!([(0x8000_0026, 0)], m, i = get_extended_cpu_topology, {
        let r = m.get(0x8000_0026, 0);
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "level");
            nums!("ExtendedCpuTopologyLevel", f;
                mask_width = r.eax[0..=4]; num_logical_processors = r.ebx[0..=15]; pwr_efficiency_ranking = r.ebx[16..=23];
                native_mode_id = r.ebx[24..=27]; core_type = r.ebx[28..=31]; input_ecx = r.ecx[0..=7];
                extended_apic_id = r.edx[0..=31];
            );
        }
    }); }
}

fn cache_parameter(f: &raw_cpuid::CacheParameter, r: CpuIdResult) {
    nums!("CacheParameter", f;
        level = r.eax[5..=7];
        max_cores_for_cache = r.eax[14..=25] + 1;
        max_cores_for_package = r.eax[26..=31] + 1;
        coherency_line_size = r.ebx[0..=11] + 1;
        physical_line_partitions = r.ebx[12..=21] + 1;
        associativity = r.ebx[22..=31] + 1;
        sets = r.ecx[0..=31] + 1;
    );
}

fn topology_level(f: &raw_cpuid::ExtendedTopologyLevel, r: CpuIdResult) {
    nums!("ExtendedTopologyLevel", f;
        processors = r.ebx[0..=15];
        level_number = r.ecx[0..=7];
        x2apic_id = r.edx[0..=31];
        shift_right_for_next_apic_id = r.eax[0..=4];
    );
}
