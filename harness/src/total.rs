//! C07: no query, accessor or iterator step panics, overflows or touches memory
//! it does not own, whatever the registers. The obligations are the side
//! conditions the verifier generates inside the crate's own code.
use crate::core_::*;
use crate::*;
use raw_cpuid::*;

contracts! { REG;
    fn c07_vendor() { with_answer!([], m, f = get_vendor_info, {
        touch!(f; as_str as_string);
    }); }
    fn c07_feature() { with_answer!([L1], m, f = get_feature_info, {
        touch!(f; extended_family_id extended_model_id base_family_id base_model_id family_id model_id stepping_id
            brand_index cflush_cache_line_size initial_local_apic_id max_logical_processor_ids has_sse3
            has_pclmulqdq has_ds_area has_monitor_mwait has_cpl has_vmx has_smx has_eist has_tm2 has_ssse3
            has_cnxtid has_fma has_cmpxchg16b has_pdcm has_pcid has_dca has_sse41 has_sse42 has_x2apic has_movbe
            has_popcnt has_tsc_deadline has_aesni has_xsave has_oxsave has_avx has_f16c has_rdrand
            has_hypervisor has_fpu has_vme has_de has_pse has_tsc has_msr has_pae has_mce has_cmpxchg8b has_apic
            has_sysenter_sysexit has_mtrr has_pge has_mca has_cmov has_pat has_pse36 has_psn has_clflush has_ds
            has_acpi has_mmx has_fxsave_fxstor has_sse has_sse2 has_ss has_htt has_tm has_pbe);
    }); }
    fn c07_serial() { with_answer!([L1, (3, 0)], m, f = get_processor_serial, {
        touch!(f; serial_lower serial_middle serial_upper serial serial_all);
    }); }
    fn c07_mwait() { with_answer!([(5, 0)], m, f = get_monitor_mwait_info, {
        touch!(f; smallest_monitor_line largest_monitor_line extensions_supported interrupts_as_break_event
            supported_c0_states supported_c1_states supported_c2_states supported_c3_states supported_c4_states
            supported_c5_states supported_c6_states supported_c7_states);
    }); }
    fn c07_thermal() { with_answer!([(6, 0)], m, f = get_thermal_power_info, {
        touch!(f; dts_irq_threshold has_dts has_turbo_boost has_arat has_pln has_ecmd has_ptm has_hwp
            has_hwp_notification has_hwp_activity_window has_hwp_energy_performance_preference
            has_hwp_package_level_request has_hdc has_turbo_boost3 has_hwp_capabilities has_hwp_peci_override
            has_flexible_hwp has_hwp_fast_access_mode has_ignore_idle_processor_hwp_request
            has_hw_coord_feedback has_energy_bias_pref);
    }); }
    fn c07_extended_features() { with_answer!([(7, 0), (7, 1)], m, f = get_extended_feature_info, {
        touch!(f; has_fsgsbase has_tsc_adjust_msr has_bmi1 has_hle has_avx2 has_fdp has_smep has_bmi2
            has_rep_movsb_stosb has_invpcid has_rtm has_rdtm has_fpu_cs_ds_deprecated has_mpx has_rdta
            has_rdseed has_adx has_smap has_clflushopt has_processor_trace has_sha has_sgx has_avx512f
            has_avx512dq has_avx512_ifma has_avx512pf has_avx512er has_avx512cd has_avx512bw has_avx512vl
            has_clwb has_prefetchwt1 has_avx512vbmi has_umip has_pku has_ospke has_waitpkg has_av512vbmi2
            has_avx512vbmi2 has_cet_ss has_gfni has_vaes has_vpclmulqdq has_avx512vnni has_avx512bitalg
            has_tme_en has_avx512vpopcntdq has_la57 has_rdpid has_sgx_lc mawau_value has_avx512_4vnniw
            has_avx512_4fmaps has_avx512_vp2intersect has_amx_bf16 has_avx512_fp16 has_amx_tile has_amx_int8
            has_avx_vnni has_avx512_bf16 has_fzrm has_fsrs has_fsrcrs has_hreset has_avx_ifma has_lam
            has_msrlist has_invd_disable_post_bios_done has_avx_vnni_int8 has_avx_ne_convert has_avx_vnni_int16
            has_prefetchi has_uiret_uif has_cet_sss has_avx10);
    }); }
    fn c07_dca() { with_answer!([(9, 0)], m, f = get_direct_cache_access_info, {
        touch!(f; get_dca_cap_value);
    }); }
    fn c07_perfmon() { with_answer!([(0xA, 0)], m, f = get_performance_monitoring_info, {
        touch!(f; version_id number_of_counters counter_bit_width ebx_length fixed_function_counters
            fixed_function_counters_bit_width has_any_thread_deprecation is_core_cyc_ev_unavailable
            is_inst_ret_ev_unavailable is_ref_cycle_ev_unavailable is_cache_ref_ev_unavailable
            is_ll_cache_miss_ev_unavailable is_branch_inst_ret_ev_unavailable is_branch_midpred_ev_unavailable);
    }); }
    fn c07_trace() { with_answer!([(0x14, 0), (0x14, 1)], m, f = get_processor_trace_info, {
        touch!(f; has_rtit_cr3_match has_configurable_psb_and_cycle_accurate_mode has_ip_tracestop_filtering
            has_mtc_timing_packet_coefi_suppression has_ptwrite has_power_event_trace has_topa
            has_topa_maximum_entries has_single_range_output_scheme has_trace_transport_subsystem
            has_lip_with_cs_base configurable_address_ranges supported_mtc_period_encodings
            supported_cycle_threshold_value_encodings supported_psb_frequency_encodings);
    }); }
    fn c07_tsc() { with_answer!([(0x15, 0)], m, f = get_tsc_info, {
        touch!(f; denominator numerator nominal_frequency tsc_frequency);
    }); }
    fn c07_frequency() { with_answer!([(0x16, 0)], m, f = get_processor_frequency_info, {
        touch!(f; processor_base_frequency processor_max_frequency bus_frequency);
    }); }
    fn c07_hypervisor() { with_answer!([L1, (0x4000_0000, 0), (0x4000_0010, 0)], m, f = get_hypervisor_info, {
        touch!(f; identify tsc_frequency apic_frequency);
    }); }
    fn c07_identifiers() { with_answer!([(0x8000_0001, 0)], m, f = get_extended_processor_and_feature_identifiers, {
        touch!(f; extended_signature pkg_type brand_id has_lahf_sahf has_cmp_legacy has_svm has_ext_apic_space
            has_alt_mov_cr8 has_lzcnt has_sse4a has_misaligned_sse_mode has_prefetchw has_osvw has_ibs has_xop
            has_skinit has_wdt has_lwp has_fma4 has_tbm has_topology_extensions has_perf_cntr_extensions
            has_nb_perf_cntr_extensions has_data_access_bkpt_extension has_perf_tsc has_perf_cntr_llc_extensions
            has_monitorx_mwaitx has_addr_mask_extension has_syscall_sysret has_execute_disable
            has_mmx_extensions has_fast_fxsave_fxstor has_1gib_pages has_rdtscp has_64bit_mode
            has_amd_3dnow_extensions has_3dnow);
    }); }
    fn c07_l1() { with_answer!([(0x8000_0005, 0)], m, f = get_l1_cache_and_tlb_info, {
        touch!(f; dtlb_2m_4m_associativity dtlb_2m_4m_size itlb_2m_4m_associativity itlb_2m_4m_size
            dtlb_4k_associativity dtlb_4k_size itlb_4k_associativity itlb_4k_size dcache_size
            dcache_associativity dcache_lines_per_tag dcache_line_size icache_size icache_associativity
            icache_lines_per_tag icache_line_size);
    }); }
    fn c07_l2_l3() { with_answer!([(0x8000_0006, 0)], m, f = get_l2_l3_cache_and_tlb_info, {
        touch!(f; dtlb_2m_4m_associativity dtlb_2m_4m_size itlb_2m_4m_associativity itlb_2m_4m_size
            dtlb_4k_associativity dtlb_4k_size itlb_4k_associativity itlb_4k_size l2cache_line_size
            l2cache_lines_per_tag l2cache_associativity l2cache_size l3cache_line_size l3cache_lines_per_tag
            l3cache_associativity l3cache_size);
    }); }
    fn c07_apm() { with_answer!([(0x8000_0007, 0)], m, f = get_advanced_power_mgmt_info, {
        touch!(f; has_mca_overflow_recovery has_succor has_hwa cpu_pwr_sample_time_ratio has_ts has_freq_id_ctrl
            has_volt_id_ctrl has_thermtrip has_tm has_100mhz_steps has_hw_pstate has_invariant_tsc has_cpb
            has_ro_effective_freq_iface has_feedback_iface has_power_reporting_iface);
    }); }
    fn c07_capacity() { with_answer!([(0x8000_0008, 0)], m, f = get_processor_capacity_feature_info, {
        touch!(f; physical_address_bits linear_address_bits guest_physical_address_bits has_cl_zero
            has_inst_ret_cntr_msr has_restore_fp_error_ptrs has_invlpgb has_rdpru has_mcommit has_wbnoinvd
            has_int_wbinvd has_unsupported_efer_lmsle has_invlpgb_nested perf_tsc_size apic_id_size
            maximum_logical_processors num_phys_threads invlpgb_max_pages max_rdpru_id);
    }); }
    fn c07_svm() { with_answer!([(0x8000_0001, 0), (0x8000_000A, 0)], m, f = get_svm_info, {
        touch!(f; revision supported_asids has_nested_paging has_lbr_virtualization has_svm_lock has_nrip
            has_tsc_rate_msr has_vmcb_clean_bits has_flush_by_asid has_decode_assists has_pause_filter
            has_pause_filter_threshold has_avic has_vmsave_virtualization has_gif has_gmet has_sss_check
            has_spec_ctrl has_host_mce_override has_tlb_ctrl);
    }); }
    fn c07_tlb_1gb() { with_answer!([(0x8000_0019, 0)], m, f = get_tlb_1gb_page_info, {
        touch!(f; dtlb_l1_1gb_associativity dtlb_l1_1gb_size itlb_l1_1gb_associativity itlb_l1_1gb_size
            dtlb_l2_1gb_associativity dtlb_l2_1gb_size itlb_l2_1gb_associativity itlb_l2_1gb_size);
    }); }
    fn c07_perf_opt() { with_answer!([(0x8000_001A, 0)], m, f = get_performance_optimization_info, {
        touch!(f; has_fp128 has_movu has_fp256);
    }); }
    fn c07_ibs() { with_answer!([(0x8000_001B, 0)], m, f = get_instruction_based_sampling_capabilities, {
        touch!(f; has_feature_flags has_fetch_sampling has_execution_sampling has_read_write_operation_counter
            has_operation_counter has_branch_target_address_reporting has_operation_counter_extended
            has_invalid_rip_indication has_fused_branch_micro_op_indication has_l3_miss_filtering);
    }); }
    fn c07_processor_topology() { with_answer!([(0x8000_001E, 0)], m, f = get_processor_topology_info, {
        touch!(f; x2apic_id core_id threads_per_core node_id nodes_per_processor);
    }); }
    fn c07_memory_encryption() { with_answer!([(0x8000_001F, 0)], m, f = get_memory_encryption_info, {
        touch!(f; has_sme has_sev has_page_flush_msr has_sev_es has_sev_snp has_vmpl has_hw_enforced_cache_coh
            has_64bit_mode has_restricted_injection has_alternate_injection has_debug_swap has_prevent_host_ibs
            has_vte c_bit_position physical_address_reduction max_encrypted_guests min_sev_no_es_asid);
    }); }
    fn c07_efi2() { with_answer!([(0x8000_0021, 0)], m, f = get_extended_feature_identification_2, {
        touch!(f; has_no_nested_data_bp has_lfence_always_serializing has_smm_pg_cfg_lock has_null_select_clears_base
            has_upper_address_ignore has_automatic_ibrs has_no_smm_ctl_msr has_prefetch_ctl_msr
            has_cpuid_user_dis microcode_patch_size);
    }); }
    fn c07_perfmon_debug() { with_answer!([(0x8000_0022, 0)], m, f = get_extended_performance_monitoring_and_debug, {
        touch!(f; has_perf_mon_v2 has_lbr_stack has_lbr_and_pmc_freeze num_perf_ctr_core num_lbr_stack_size
            num_perf_ctr_nb);
    }); }
    fn c07_mkmem() { with_answer!([(0x8000_0023, 0)], m, f = get_multi_key_encrypted_memory_capabilities, {
        touch!(f; has_mem_hmk max_mem_hmk_encr_key_id);
    }); }
    fn c07_rdt_monitoring() { with_answer!([(0xF, 0), (0xF, 1)], m, f = get_rdt_monitoring_info, {
        touch!(f; rmid_range has_l3_monitoring);
        if let Some(x) = f.l3_monitoring() { touch!(x; conversion_factor maximum_rmid_range has_occupancy_monitoring has_total_bandwidth_monitoring
            has_local_bandwidth_monitoring); }
    }); }
    fn c07_rdt_allocation() { with_answer!([(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)], m, f = get_rdt_allocation_info, {
        touch!(f; has_l3_cat has_l2_cat has_memory_bandwidth_allocation);
        if let Some(x) = f.l3_cat() { touch!(x; capacity_mask_length isolation_bitmap highest_cos has_code_data_prioritization); }
        if let Some(x) = f.l2_cat() { touch!(x; capacity_mask_length isolation_bitmap highest_cos); }
        if let Some(x) = f.memory_bandwidth_allocation() { touch!(x; max_hba_throttling highest_cos has_linear_response_delay); }
    }); }
    fn c07_pqos() { with_answer!([(0x8000_0020, 0), (0x8000_0020, 1), (0x8000_0020, 2), (0x8000_0020, 3), (0x8000_0020, 5)], m, f = get_pqos_extended_feature_info, {
        touch!(f; has_l3mbe has_l3smbe has_bmec has_l3rr has_abmc has_sdciae get_l3_memory_bandwidth_enforcement_info
            get_l3_slow_memory_bandwidth_enforcement_info get_bandwidth_monitoring_event_counters_info
            get_assignable_bandwidth_monitoring_counters_info);
        if let Some(x) = f.get_l3_memory_bandwidth_enforcement_info() { touch!(x; bandwidth_length cos_max); }
        if let Some(x) = f.get_l3_slow_memory_bandwidth_enforcement_info() { touch!(x; bandwidth_length cos_max); }
        if let Some(x) = f.get_bandwidth_monitoring_event_counters_info() { touch!(x; number_events has_l3_cache_lcl_bw_fill_mon has_l3_cache_rmt_bw_fill_mon
            has_l3_cache_lcl_bw_nt_wr_mon has_l3_cache_rmt_bw_nt_wr_mon has_l3_cache_lcl_slow_bw_fill_mon
            has_l3_cache_rmt_slow_bw_fill_mon has_l3_cache_vic_mon); }
        if let Some(x) = f.get_assignable_bandwidth_monitoring_counters_info() { touch!(x; counter_size has_overflow_bit max_abmc has_select_cos); }
    }); }
    fn c07_cache_parameters() { with_answer!([(4, 0), (4, 1), (0x8000_001D, 0), (0x8000_001D, 1)], m, f = get_cache_parameters, {
        let mut f = f;
        let _ = f.clone();
        while_some!(f, x, { touch!(x; cache_type level is_self_initializing is_fully_associative max_cores_for_cache max_cores_for_package
            coherency_line_size physical_line_partitions associativity sets is_write_back_invalidate
            is_inclusive has_complex_indexing); });
    }); }
    fn c07_topology() { with_answer!([(0xB, 0), (0xB, 1)], m, f = get_extended_topology_info, {
        let mut f = f;
        while_some!(f, x, { touch!(x; processors level_number level_type x2apic_id shift_right_for_next_apic_id); });
    }); }
    fn c07_topology_v2() { with_answer!([(0x1F, 0), (0x1F, 1)], m, f = get_extended_topology_info_v2, {
        let mut f = f;
        while_some!(f, x, { touch!(x; processors level_number level_type x2apic_id shift_right_for_next_apic_id); });
    }); }
    fn c07_cpu_topology() { with_answer!([(0x8000_0026, 0), (0x8000_0026, 1)], m, f = get_extended_cpu_topology, {
        let mut f = f;
        while_some!(f, x, { touch!(x; mask_width has_efficiency_ranking_available has_heterogeneous_cores has_asymmetric_topology
            num_logical_processors pwr_efficiency_ranking native_mode_id core_type input_ecx level_type
            extended_apic_id); });
    }); }
    #[unwind(34)]
    fn c07_xstate() { with_answer!([(0xD, 0), (0xD, 1), (0xD, 2)], m, f = get_extended_state_info, {
        touch!(f; xcr0_supports_legacy_x87 xcr0_supports_sse_128 xcr0_supports_avx_256 xcr0_supports_mpx_bndregs
            xcr0_supports_mpx_bndcsr xcr0_supports_avx512_opmask xcr0_supports_avx512_zmm_hi256
            xcr0_supports_avx512_zmm_hi16 xcr0_supports_pkru ia32_xss_supports_pt ia32_xss_supports_hdc
            xsave_area_size_enabled_features xsave_area_size_supported_features has_xsaveopt has_xsavec
            has_xgetbv has_xsaves_xrstors xsave_size);
        let mut i = f.iter();
        if let Some(x) = i.next() { touch!(x; register size offset location is_in_ia32_xss is_in_xcr0 is_compacted_format); }
    }); }
    fn c07_sgx() { with_answer!([(7, 0), (0x12, 0), (0x12, 1), (0x12, 2), (0x12, 3)], m, f = get_sgx_info, {
        touch!(f; has_sgx1 has_sgx2 has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext
            has_encls_leaves_etrackc_erdinfo_eldbc_elduc miscselect max_enclave_size_non_64bit
            max_enclave_size_64bit secs_attributes);
        let mut i = f.iter();
        while_some!(i, x, { let SgxSectionInfo::Epc(x) = x; touch!(x; physical_base size); });
    }); }
    #[unwind(50)]
    fn c07_soc() { with_answer!([(0x17, 0), (0x17, 1), (0x17, 2), (0x17, 3), (0x17, 4), (0x17, 5)], m, f = get_soc_vendor_info, {
        touch!(f; get_soc_vendor_id get_project_id get_stepping_id);
        if let Some(x) = f.get_vendor_brand() { touch!(x; as_str as_string); }
        if let Some(mut i) = f.get_vendor_attributes() { while_some!(i, x, { let _ = x; }); }
    }); }
    #[unwind(50)]
    fn c07_brand_string() { with_answer!([(0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0)], m, f = get_processor_brand_string, {
        touch!(f; as_str);
    }); }
    fn c07_cache_info() { with_answer!([(2, 0)], m, f = get_cache_info, { let _ = f.clone(); }); }
    fn c07_descriptor() {
        let mut c = CACHE_INFO_TABLE[0];
        c.num = any_u32() as u8;
        let _ = c.desc();
        reach!(true, "any descriptor");
    }
    fn c07_dat() {
        let m = machine([L0, X0, (0x18, 0), (0x18, 1), (0x18, 2)]);
        // Bounds the inner search loop only; the unbounded statement is C12's.
        assume(m.get(0x18, 0).eax <= 2);
        if let Some(mut f) = open(&m).get_deterministic_address_translation_info() {
            reach!(true, "answers");
            while_some!(f, x, { touch!(x; has_4k_entries has_2mb_entries has_4mb_entries has_1gb_entries is_fully_associative partitioning
            ways sets cache_type cache_level max_addressable_ids); });
        }
    }
    // A last sub-leaf index of u32::MAX does not overflow the walk (first item).
    fn c07_dat_unbounded_max() {
        let m = machine([L0, X0, (0x18, 0)]);
        assume(bits(m.get(0x18, 0).edx, 0, 4) != 0);
        if let Some(mut f) = open(&m).get_deterministic_address_translation_info() {
            reach!(true, "answers");
            let _ = f.next();
        }
    }
    fn c07_reader() {
        let m = machine([L0, X0]);
        let c = open(&m);
        let _ = c.clone();
        let r = any_res();
        ck!(r.all_zero() == (r.eax | r.ebx | r.ecx | r.edx == 0), "CpuIdResult::all_zero iff every register is zero");
        reach!(r.all_zero(), "all zero");
    }
}
