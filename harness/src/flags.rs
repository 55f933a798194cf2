//! C05 / C06: every feature predicate reports exactly the documented bit of the
//! documented register, for every register content. C05: basic leaves. C06:
//! extended leaves, and AMD-only bits read as absent on every other vendor.
use crate::core_::*;
use crate::*;

contracts! { REG;
    fn c05_feature_info() { with_answer!([(1, 0)], m, f = get_feature_info, {
        let r = m.get(1, 0);
        flags!("FeatureInfo", f;
            has_sse3 = r.ecx[0]; has_pclmulqdq = r.ecx[1]; has_ds_area = r.ecx[2];
            has_monitor_mwait = r.ecx[3]; has_cpl = r.ecx[4]; has_vmx = r.ecx[5]; has_smx = r.ecx[6];
            has_eist = r.ecx[7]; has_tm2 = r.ecx[8]; has_ssse3 = r.ecx[9]; has_cnxtid = r.ecx[10];
            has_fma = r.ecx[12]; has_cmpxchg16b = r.ecx[13]; has_pdcm = r.ecx[15]; has_pcid = r.ecx[17];
            has_dca = r.ecx[18]; has_sse41 = r.ecx[19]; has_sse42 = r.ecx[20]; has_x2apic = r.ecx[21];
            has_movbe = r.ecx[22]; has_popcnt = r.ecx[23]; has_tsc_deadline = r.ecx[24];
            has_aesni = r.ecx[25]; has_xsave = r.ecx[26]; has_oxsave = r.ecx[27]; has_avx = r.ecx[28];
            has_f16c = r.ecx[29]; has_rdrand = r.ecx[30]; has_hypervisor = r.ecx[31]; has_fpu = r.edx[0];
            has_vme = r.edx[1]; has_de = r.edx[2]; has_pse = r.edx[3]; has_tsc = r.edx[4];
            has_msr = r.edx[5]; has_pae = r.edx[6]; has_mce = r.edx[7]; has_cmpxchg8b = r.edx[8];
            has_apic = r.edx[9]; has_sysenter_sysexit = r.edx[11]; has_mtrr = r.edx[12]; has_pge = r.edx[13];
            has_mca = r.edx[14]; has_cmov = r.edx[15]; has_pat = r.edx[16]; has_pse36 = r.edx[17];
            has_psn = r.edx[18]; has_clflush = r.edx[19]; has_ds = r.edx[21]; has_acpi = r.edx[22];
            has_mmx = r.edx[23]; has_fxsave_fxstor = r.edx[24]; has_sse = r.edx[25]; has_sse2 = r.edx[26];
            has_ss = r.edx[27]; has_htt = r.edx[28]; has_tm = r.edx[29]; has_pbe = r.edx[31];
        );
    }); }
    fn c05_cache_parameter() {
        let m = machine([L0, X0, (4, 0)]);
        assume(!is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            if let Some(f) = i.next() {
                reach!(true, "a cache parameter is reported (leaf 4)");
                let r = m.get(4, 0);
                flags!("CacheParameter", f;
                    is_self_initializing = r.eax[8]; is_fully_associative = r.eax[9];
                    is_write_back_invalidate = r.edx[0]; is_inclusive = r.edx[1]; has_complex_indexing = r.edx[2];
                );
            }
        }
    }
    fn c05_cache_parameter_amd() {
        let m = machine([L0, X0, (0x8000_001D, 0)]);
        assume(is_amd(&m));
        if let Some(mut i) = open(&m).get_cache_parameters() {
            if let Some(f) = i.next() {
                reach!(true, "a cache parameter is reported (leaf 0x8000001D)");
                let r = m.get(0x8000_001D, 0);
                flags!("CacheParameter", f;
                    is_self_initializing = r.eax[8]; is_fully_associative = r.eax[9];
                    is_write_back_invalidate = r.edx[0]; is_inclusive = r.edx[1]; has_complex_indexing = r.edx[2];
                );
            }
        }
    }
    fn c05_mwait() { with_answer!([(5, 0)], m, f = get_monitor_mwait_info, {
        let r = m.get(5, 0);
        flags!("MonitorMwaitInfo", f; extensions_supported = r.ecx[0]; interrupts_as_break_event = r.ecx[1];);
    }); }
    fn c05_thermal() { with_answer!([(6, 0)], m, f = get_thermal_power_info, {
        let r = m.get(6, 0);
        flags!("ThermalPowerInfo", f;
            has_dts = r.eax[0]; has_turbo_boost = r.eax[1]; has_arat = r.eax[2]; has_pln = r.eax[4];
            has_ecmd = r.eax[5]; has_ptm = r.eax[6]; has_hwp = r.eax[7]; has_hwp_notification = r.eax[8];
            has_hwp_activity_window = r.eax[9]; has_hwp_energy_performance_preference = r.eax[10];
            has_hwp_package_level_request = r.eax[11]; has_hdc = r.eax[13]; has_turbo_boost3 = r.eax[14];
            has_hwp_capabilities = r.eax[15]; has_hwp_peci_override = r.eax[16];
            has_flexible_hwp = r.eax[17]; has_hwp_fast_access_mode = r.eax[18];
            has_ignore_idle_processor_hwp_request = r.eax[20]; has_hw_coord_feedback = r.ecx[0];
            has_energy_bias_pref = r.ecx[3];
        );
    }); }
    fn c05_extended_features() { with_answer!([(7, 0), (7, 1)], m, f = get_extended_feature_info, {
        let r = m.get(7, 0);
        flags!("ExtendedFeatures", f;
            has_fsgsbase = r.ebx[0]; has_tsc_adjust_msr = r.ebx[1]; has_bmi1 = r.ebx[3]; has_hle = r.ebx[4];
            has_avx2 = r.ebx[5]; has_fdp = r.ebx[6]; has_smep = r.ebx[7]; has_bmi2 = r.ebx[8];
            has_rep_movsb_stosb = r.ebx[9]; has_invpcid = r.ebx[10]; has_rtm = r.ebx[11];
            has_rdtm = r.ebx[12]; has_fpu_cs_ds_deprecated = r.ebx[13]; has_mpx = r.ebx[14];
            has_rdta = r.ebx[15]; has_rdseed = r.ebx[18]; has_adx = r.ebx[19]; has_smap = r.ebx[20];
            has_clflushopt = r.ebx[23]; has_processor_trace = r.ebx[25]; has_sha = r.ebx[29];
            has_sgx = r.ebx[2]; has_avx512f = r.ebx[16]; has_avx512dq = r.ebx[17];
            has_avx512_ifma = r.ebx[21]; has_avx512pf = r.ebx[26]; has_avx512er = r.ebx[27];
            has_avx512cd = r.ebx[28]; has_avx512bw = r.ebx[30]; has_avx512vl = r.ebx[31];
            has_clwb = r.ebx[24]; has_prefetchwt1 = r.ecx[0]; has_avx512vbmi = r.ecx[1]; has_umip = r.ecx[2];
            has_pku = r.ecx[3]; has_ospke = r.ecx[4]; has_waitpkg = r.ecx[5]; has_av512vbmi2 = r.ecx[6];
            has_avx512vbmi2 = r.ecx[6]; has_cet_ss = r.ecx[7]; has_gfni = r.ecx[8]; has_vaes = r.ecx[9];
            has_vpclmulqdq = r.ecx[10]; has_avx512vnni = r.ecx[11]; has_avx512bitalg = r.ecx[12];
            has_tme_en = r.ecx[13]; has_avx512vpopcntdq = r.ecx[14]; has_la57 = r.ecx[16];
            has_rdpid = r.ecx[22]; has_sgx_lc = r.ecx[30]; has_avx512_4vnniw = r.edx[2];
            has_avx512_4fmaps = r.edx[3]; has_avx512_vp2intersect = r.edx[8]; has_amx_bf16 = r.edx[22];
            has_avx512_fp16 = r.edx[23]; has_amx_tile = r.edx[24]; has_amx_int8 = r.edx[25];
        );
    }); }
    fn c05_extended_features_subleaf_1() { with_answer!([(7, 0), (7, 1)], m, f = get_extended_feature_info, {
        let r1 = m.get(7, 1);
        flags!("ExtendedFeatures", f;
            has_avx_vnni = r1.eax[4]; has_avx512_bf16 = r1.eax[5]; has_fzrm = r1.eax[10];
            has_fsrs = r1.eax[11]; has_fsrcrs = r1.eax[12]; has_hreset = r1.eax[22];
            has_avx_ifma = r1.eax[23]; has_lam = r1.eax[26]; has_msrlist = r1.eax[27];
            has_invd_disable_post_bios_done = r1.eax[30]; has_avx_vnni_int8 = r1.edx[4];
            has_avx_ne_convert = r1.edx[5]; has_avx_vnni_int16 = r1.edx[10]; has_prefetchi = r1.edx[14];
            has_uiret_uif = r1.edx[17]; has_cet_sss = r1.edx[18]; has_avx10 = r1.edx[19];
        );
    }); }
    fn c05_perfmon() { with_answer!([(0xA, 0)], m, f = get_performance_monitoring_info, {
        let r = m.get(0xA, 0);
        flags!("PerformanceMonitoringInfo", f;
            has_any_thread_deprecation = r.edx[15]; is_core_cyc_ev_unavailable = r.ebx[0];
            is_inst_ret_ev_unavailable = r.ebx[1]; is_ref_cycle_ev_unavailable = r.ebx[2];
            is_cache_ref_ev_unavailable = r.ebx[3]; is_ll_cache_miss_ev_unavailable = r.ebx[4];
            is_branch_inst_ret_ev_unavailable = r.ebx[5]; is_branch_midpred_ev_unavailable = r.ebx[6];
        );
    }); }
    fn c05_xstate() { with_answer!([(0xD, 0), (0xD, 1)], m, f = get_extended_state_info, {
        let (r, r1) = (m.get(0xD, 0), m.get(0xD, 1));
        flags!("ExtendedStateInfo", f;
            xcr0_supports_legacy_x87 = r.eax[0]; xcr0_supports_sse_128 = r.eax[1];
            xcr0_supports_avx_256 = r.eax[2]; xcr0_supports_mpx_bndregs = r.eax[3];
            xcr0_supports_mpx_bndcsr = r.eax[4]; xcr0_supports_avx512_opmask = r.eax[5];
            xcr0_supports_avx512_zmm_hi256 = r.eax[6]; xcr0_supports_avx512_zmm_hi16 = r.eax[7];
            xcr0_supports_pkru = r.eax[9]; ia32_xss_supports_pt = r1.ecx[8];
            ia32_xss_supports_hdc = r1.ecx[13];
            has_xsaveopt = r1.eax[0]; has_xsavec = r1.eax[1]; has_xgetbv = r1.eax[2]; has_xsaves_xrstors = r1.eax[3];
        );
    }); }
    fn c05_rdt_monitoring() { with_answer!([(0xF, 0), (0xF, 1)], m, f = get_rdt_monitoring_info, {
        let (r, r1) = (m.get(0xF, 0), m.get(0xF, 1));
        flags!("RdtMonitoringInfo", f; has_l3_monitoring = r.edx[1];);
        if let Some(l) = f.l3_monitoring() {
            reach!(true, "l3 monitoring");
            flags!("L3MonitoringInfo", l;
                has_occupancy_monitoring = r1.edx[0]; has_total_bandwidth_monitoring = r1.edx[1];
                has_local_bandwidth_monitoring = r1.edx[2];
            );
        }
    }); }
    fn c05_rdt_allocation() { with_answer!([(0x10, 0), (0x10, 1), (0x10, 3)], m, f = get_rdt_allocation_info, {
        let (r, r1, r3) = (m.get(0x10, 0), m.get(0x10, 1), m.get(0x10, 3));
        flags!("RdtAllocationInfo", f; has_l3_cat = r.ebx[1]; has_l2_cat = r.ebx[2]; has_memory_bandwidth_allocation = r.ebx[3];);
        if let Some(l) = f.l3_cat() {
            reach!(true, "l3 cat");
            flags!("L3CatInfo", l; has_code_data_prioritization = r1.ecx[2];);
        }
        if let Some(l) = f.memory_bandwidth_allocation() {
            reach!(true, "mba");
            flags!("MemBwAllocationInfo", l; has_linear_response_delay = r3.ecx[2];);
        }
    }); }
    fn c05_sgx() { with_answer!([(7, 0), (0x12, 0)], m, f = get_sgx_info, {
        let r = m.get(0x12, 0);
        flags!("SgxInfo", f;
            has_sgx1 = r.eax[0]; has_sgx2 = r.eax[1];
            has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext = r.eax[5];
            has_encls_leaves_etrackc_erdinfo_eldbc_elduc = r.eax[6];
        );
    }); }
    fn c05_trace() { with_answer!([(0x14, 0)], m, f = get_processor_trace_info, {
        let r = m.get(0x14, 0);
        flags!("ProcessorTraceInfo", f;
            has_rtit_cr3_match = r.ebx[0]; has_configurable_psb_and_cycle_accurate_mode = r.ebx[1];
            has_ip_tracestop_filtering = r.ebx[2]; has_mtc_timing_packet_coefi_suppression = r.ebx[3];
            has_ptwrite = r.ebx[4]; has_power_event_trace = r.ebx[5]; has_topa = r.ecx[0];
            has_topa_maximum_entries = r.ecx[1]; has_single_range_output_scheme = r.ecx[2];
            has_trace_transport_subsystem = r.ecx[3]; has_lip_with_cs_base = r.ecx[31];
        );
    }); }
    fn c05_dat() {
        let m = machine([L0, X0, (0x18, 0), (0x18, 1)]);
        assume(m.get(0x18, 0).eax <= 1);
        assume(m.get(0x18, 0).edx & 0x1f != 0);
        if let Some(mut i) = open(&m).get_deterministic_address_translation_info() {
            if let Some(f) = i.next() {
                reach!(true, "a translation structure is reported");
                let r = m.get(0x18, 0);
                flags!("DatInfo", f;
                    has_4k_entries = r.ebx[0]; has_2mb_entries = r.ebx[1]; has_4mb_entries = r.ebx[2];
                    has_1gb_entries = r.ebx[3]; is_fully_associative = r.edx[8];
                );
            }
        }
    }

    fn c06_identifiers() { with_answer!([(0x8000_0001, 0)], m, f = get_extended_processor_and_feature_identifiers, {
        let r = m.get(0x8000_0001, 0);
        flags!("ExtendedProcessorFeatureIdentifiers", f;
            has_lahf_sahf = r.ecx[0]; has_lzcnt = r.ecx[5]; has_prefetchw = r.ecx[8];
            has_syscall_sysret = r.edx[11]; has_execute_disable = r.edx[20]; has_1gib_pages = r.edx[26];
            has_rdtscp = r.edx[27]; has_64bit_mode = r.edx[29];
        );
    }); }
    fn c06_identifiers_amd() { with_answer!([(0x8000_0001, 0)], m, f = get_extended_processor_and_feature_identifiers, {
        let r = m.get(0x8000_0001, 0);
        if is_amd(&m) {
            reach!(true, "on AMD");
            flags!("ExtendedProcessorFeatureIdentifiers(AMD)", f;
                has_cmp_legacy = r.ecx[1]; has_svm = r.ecx[2]; has_ext_apic_space = r.ecx[3];
                has_alt_mov_cr8 = r.ecx[4]; has_sse4a = r.ecx[6]; has_misaligned_sse_mode = r.ecx[7];
                has_osvw = r.ecx[9]; has_ibs = r.ecx[10]; has_xop = r.ecx[11]; has_skinit = r.ecx[12];
                has_wdt = r.ecx[13]; has_lwp = r.ecx[15]; has_fma4 = r.ecx[16]; has_tbm = r.ecx[21];
                has_topology_extensions = r.ecx[22]; has_perf_cntr_extensions = r.ecx[23];
                has_nb_perf_cntr_extensions = r.ecx[24]; has_data_access_bkpt_extension = r.ecx[26];
                has_perf_tsc = r.ecx[27]; has_perf_cntr_llc_extensions = r.ecx[28];
                has_monitorx_mwaitx = r.ecx[29]; has_addr_mask_extension = r.ecx[30];
                has_mmx_extensions = r.edx[22]; has_fast_fxsave_fxstor = r.edx[25];
                has_amd_3dnow_extensions = r.edx[30]; has_3dnow = r.edx[31];
            );
        } else {
            reach!(true, "elsewhere");
            never!("ExtendedProcessorFeatureIdentifiers(not AMD)", f;
                has_cmp_legacy has_svm has_ext_apic_space has_alt_mov_cr8 has_sse4a has_misaligned_sse_mode
                has_osvw has_ibs has_xop has_skinit has_wdt has_lwp has_fma4 has_tbm has_topology_extensions
                has_perf_cntr_extensions has_nb_perf_cntr_extensions has_data_access_bkpt_extension
                has_perf_tsc has_perf_cntr_llc_extensions has_monitorx_mwaitx has_addr_mask_extension
                has_mmx_extensions has_fast_fxsave_fxstor has_amd_3dnow_extensions has_3dnow
            );
        }
    }); }
    fn c06_apm() { with_answer!([(0x8000_0007, 0)], m, f = get_advanced_power_mgmt_info, {
        let r = m.get(0x8000_0007, 0);
        flags!("ApmInfo", f;
            has_mca_overflow_recovery = r.ebx[0]; has_succor = r.ebx[1]; has_hwa = r.ebx[2];
            has_ts = r.edx[0]; has_freq_id_ctrl = r.edx[1]; has_volt_id_ctrl = r.edx[2];
            has_thermtrip = r.edx[3]; has_tm = r.edx[4]; has_100mhz_steps = r.edx[6];
            has_hw_pstate = r.edx[7]; has_invariant_tsc = r.edx[8]; has_cpb = r.edx[9];
            has_ro_effective_freq_iface = r.edx[10]; has_feedback_iface = r.edx[11];
            has_power_reporting_iface = r.edx[12];
        );
    }); }
    fn c06_capacity() { with_answer!([(0x8000_0008, 0)], m, f = get_processor_capacity_feature_info, {
        let r = m.get(0x8000_0008, 0);
        flags!("ProcessorCapacityAndFeatureInfo", f;
            has_cl_zero = r.ebx[0]; has_inst_ret_cntr_msr = r.ebx[1]; has_restore_fp_error_ptrs = r.ebx[2];
            has_invlpgb = r.ebx[3]; has_rdpru = r.ebx[4]; has_mcommit = r.ebx[8]; has_wbnoinvd = r.ebx[9];
            has_int_wbinvd = r.ebx[13]; has_unsupported_efer_lmsle = r.ebx[20];
            has_invlpgb_nested = r.ebx[21];
        );
    }); }
    fn c06_perf_opt() { with_answer!([(0x8000_001A, 0)], m, f = get_performance_optimization_info, {
        let r = m.get(0x8000_001A, 0);
        flags!("PerformanceOptimizationInfo", f;
            has_fp128 = r.eax[0]; has_movu = r.eax[1]; has_fp256 = r.eax[2];
        );
    }); }
    fn c06_ibs() { with_answer!([(0x8000_001B, 0)], m, f = get_instruction_based_sampling_capabilities, {
        let r = m.get(0x8000_001B, 0);
        flags!("InstructionBasedSamplingCapabilities", f;
            has_feature_flags = r.eax[0]; has_fetch_sampling = r.eax[1]; has_execution_sampling = r.eax[2];
            has_read_write_operation_counter = r.eax[3]; has_operation_counter = r.eax[4];
            has_branch_target_address_reporting = r.eax[5]; has_operation_counter_extended = r.eax[6];
            has_invalid_rip_indication = r.eax[7]; has_fused_branch_micro_op_indication = r.eax[8];
            has_l3_miss_filtering = r.eax[11];
        );
    }); }
    fn c06_memory_encryption() { with_answer!([(0x8000_001F, 0)], m, f = get_memory_encryption_info, {
        let r = m.get(0x8000_001F, 0);
        flags!("MemoryEncryptionInfo", f;
            has_sme = r.eax[0]; has_sev = r.eax[1]; has_page_flush_msr = r.eax[2]; has_sev_es = r.eax[3];
            has_sev_snp = r.eax[4]; has_vmpl = r.eax[5]; has_hw_enforced_cache_coh = r.eax[10];
            has_64bit_mode = r.eax[11]; has_restricted_injection = r.eax[12];
            has_alternate_injection = r.eax[13]; has_debug_swap = r.eax[14];
            has_prevent_host_ibs = r.eax[15]; has_vte = r.eax[16];
        );
    }); }
    fn c06_pqos() { with_answer!([(0x8000_0020, 0)], m, f = get_pqos_extended_feature_info, {
        let r = m.get(0x8000_0020, 0);
        flags!("PqosExtendedFeatureInfo", f;
            has_l3mbe = r.ebx[1]; has_l3smbe = r.ebx[2]; has_bmec = r.ebx[3]; has_l3rr = r.ebx[4];
            has_abmc = r.ebx[5]; has_sdciae = r.ebx[6];
        );
    }); }
    fn c06_efi2() { with_answer!([(0x8000_0021, 0)], m, f = get_extended_feature_identification_2, {
        let r = m.get(0x8000_0021, 0);
        flags!("ExtendedFeatureIdentification2", f;
            has_no_nested_data_bp = r.eax[0]; has_lfence_always_serializing = r.eax[2];
            has_smm_pg_cfg_lock = r.eax[3]; has_null_select_clears_base = r.eax[6];
            has_upper_address_ignore = r.eax[7]; has_automatic_ibrs = r.eax[8];
            has_no_smm_ctl_msr = r.eax[9]; has_prefetch_ctl_msr = r.eax[13]; has_cpuid_user_dis = r.eax[17];
        );
    }); }
    fn c06_perfmon_debug() { with_answer!([(0x8000_0022, 0)], m, f = get_extended_performance_monitoring_and_debug, {
        let r = m.get(0x8000_0022, 0);
        flags!("ExtendedPerformanceMonitoringDebug", f;
            has_perf_mon_v2 = r.eax[0]; has_lbr_stack = r.eax[1]; has_lbr_and_pmc_freeze = r.eax[2];
        );
    }); }
    fn c06_mkmem() { with_answer!([(0x8000_0023, 0)], m, f = get_multi_key_encrypted_memory_capabilities, {
        let r = m.get(0x8000_0023, 0);
        flags!("MultiKeyEncryptedMemoryCapabilities", f;
            has_mem_hmk = r.eax[0];
        );
    }); }
    fn c06_svm() { with_answer!([(0x8000_0001, 0), (0x8000_000A, 0)], m, f = get_svm_info, {
        let r = m.get(0x8000_000A, 0);
        flags!("SvmFeatures", f;
            has_nested_paging = r.edx[0]; has_lbr_virtualization = r.edx[1]; has_svm_lock = r.edx[2];
            has_nrip = r.edx[3]; has_tsc_rate_msr = r.edx[4]; has_vmcb_clean_bits = r.edx[5];
            has_flush_by_asid = r.edx[6]; has_decode_assists = r.edx[7]; has_pause_filter = r.edx[10];
            has_pause_filter_threshold = r.edx[12]; has_avic = r.edx[13];
            has_vmsave_virtualization = r.edx[15]; has_gif = r.edx[16]; has_gmet = r.edx[17];
            has_sss_check = r.edx[19]; has_spec_ctrl = r.edx[20]; has_host_mce_override = r.edx[23];
            has_tlb_ctrl = r.edx[24];
        );
    }); }
    fn c06_bmec() { with_answer!([(0x8000_0020, 0), (0x8000_0020, 3)], m, f = get_pqos_extended_feature_info, {
        let r3 = m.get(0x8000_0020, 3);
        if let Some(l) = f.get_bandwidth_monitoring_event_counters_info() {
            reach!(true, "bmec");
            flags!("BandwidthMonitoringEventCounters", l;
                has_l3_cache_lcl_bw_fill_mon = r3.ecx[0]; has_l3_cache_rmt_bw_fill_mon = r3.ecx[1];
                has_l3_cache_lcl_bw_nt_wr_mon = r3.ecx[2]; has_l3_cache_rmt_bw_nt_wr_mon = r3.ecx[3];
                has_l3_cache_lcl_slow_bw_fill_mon = r3.ecx[4]; has_l3_cache_rmt_slow_bw_fill_mon = r3.ecx[5];
                has_l3_cache_vic_mon = r3.ecx[6];
            );
        }
    }); }
    fn c06_abmc() { with_answer!([(0x8000_0020, 0), (0x8000_0020, 5)], m, f = get_pqos_extended_feature_info, {
        let r5 = m.get(0x8000_0020, 5);
        if let Some(l) = f.get_assignable_bandwidth_monitoring_counters_info() {
            reach!(true, "abmc");
            flags!("AssignableBandwidthMonitoringCounterInfo", l; has_overflow_bit = r5.eax[8]; has_select_cos = r5.ecx[0];);
        }
    }); }
    fn c06_cpu_topology() { with_answer!([(0x8000_0026, 0)], m, i = get_extended_cpu_topology, {
        let r = m.get(0x8000_0026, 0);
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "level");
            flags!("ExtendedCpuTopologyLevel", f;
                has_efficiency_ranking_available = r.eax[29]; has_heterogeneous_cores = r.eax[30];
                has_asymmetric_topology = r.eax[31];
            );
        }
    }); }
}
