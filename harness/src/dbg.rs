//! C20: the Debug output of an information struct shows, under the name of an
//! accessor, the value which that accessor returns.
//!
//! Under the verifier `DebugStruct::field` and `finish` are replaced by a recorder
//! of the (name, value) pairs handed to the formatter; natively the printed text
//! itself is searched. Formatting of the individual value is core's.
use crate::core_::*;
use crate::*;
use core::fmt::Debug;
use raw_cpuid::*;

#[cfg(kani)]
pub mod shown {
    use core::fmt::{Debug, DebugList, DebugStruct, Result, Write};
    const MAX: usize = 24;
    static mut N: usize = 0;
    static mut NAME: [u64; MAX] = [0; MAX];
    static mut SIZE: [usize; MAX] = [0; MAX];
    static mut VALUE: [[u64; 4]; MAX] = [[0; 4]; MAX];

    pub const fn hash(s: &str) -> u64 {
        let b = s.as_bytes();
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut i = 0;
        while i < b.len() {
            h = (h ^ b[i] as u64).wrapping_mul(0x100_0000_01b3);
            i += 1;
        }
        h
    }

    pub fn field<'a, 'b: 'a, 'c>(s: &'c mut DebugStruct<'a, 'b>, name: &str, value: &dyn Debug) -> &'c mut DebugStruct<'a, 'b>
    where
        'a: 'a,
        'b: 'b,
    {
        unsafe {
            if N < MAX {
                let n = core::mem::size_of_val(value);
                NAME[N] = hash(name);
                SIZE[N] = n;
                if n <= 32 {
                    core::ptr::copy_nonoverlapping(value as *const dyn Debug as *const u8, VALUE[N].as_mut_ptr() as *mut u8, n);
                }
                N += 1;
            }
        }
        s
    }
    pub fn finish<'a, 'b: 'a>(_s: &mut DebugStruct<'a, 'b>) -> Result
    where
        'a: 'a,
        'b: 'b,
    {
        Ok(())
    }

    /// Optional values whose type has no padding.
    pub fn same<T>(a: &Option<T>, b: &Option<T>) -> bool {
        match (a, b) {
            (Some(a), Some(b)) => bytes_equal(a, b),
            (None, None) => true,
            _ => false,
        }
    }
    fn bytes_equal<T>(a: &T, b: &T) -> bool {
        let (a, b) = (a as *const T as *const u8, b as *const T as *const u8);
        let mut k = 0;
        while k < core::mem::size_of::<T>() {
            if unsafe { *a.add(k) != *b.add(k) } {
                return false;
            }
            k += 1;
        }
        true
    }
    /// Entries of the printed list.
    static mut ITEMS: usize = 0;
    static mut ITEM: [(usize, [u64; 4]); 4] = [(0, [0; 4]); 4];
    pub fn item<'a, 'b: 'a, 'c>(s: &'c mut DebugList<'a, 'b>, value: &dyn Debug) -> &'c mut DebugList<'a, 'b>
    where
        'a: 'a,
        'b: 'b,
    {
        unsafe {
            let n = core::mem::size_of_val(value);
            if ITEMS < 4 && n <= 32 {
                ITEM[ITEMS].0 = n;
                core::ptr::copy_nonoverlapping(value as *const dyn Debug as *const u8, ITEM[ITEMS].1.as_mut_ptr() as *mut u8, n);
            }
            ITEMS += 1;
        }
        s
    }
    pub fn finish_list<'a, 'b: 'a>(_s: &mut DebugList<'a, 'b>) -> Result
    where
        'a: 'a,
        'b: 'b,
    {
        Ok(())
    }
    pub fn print_list<T: Debug>(t: &T) {
        unsafe { ITEMS = 0 };
        let _ = write!(Sink, "{:?}", t);
    }
    pub fn items() -> usize {
        unsafe { ITEMS }
    }
    /// The i-th entry is `want`, whose type has no padding.
    pub fn is_item<T>(i: usize, want: &T) -> bool {
        if i >= 4 {
            return false;
        }
        let (have, v) = unsafe { &ITEM[i] };
        *have == core::mem::size_of::<T>() && bytes_equal(unsafe { &*(v.as_ptr() as *const T) }, want)
    }

    struct Sink;
    impl Write for Sink {
        fn write_str(&mut self, _s: &str) -> Result {
            Ok(())
        }
    }
    pub fn print<T: Debug>(t: &T) {
        unsafe { N = 0 };
        let _ = write!(Sink, "{:?}", t);
    }
    /// The value shown under `name` (a hash) satisfies `f`.
    fn entry(name: u64) -> usize {
        let mut i = 0;
        unsafe {
            while i < N {
                if NAME[i] == name {
                    return i;
                }
                i += 1;
            }
        }
        MAX
    }
    /// An integer or bool, whatever its width.
    pub fn int(name: u64, want: u128) -> bool {
        let i = entry(name);
        i < MAX && unsafe {
            let v = VALUE[i][0];
            (match SIZE[i] {
                1 => v & 0xff,
                2 => v & 0xffff,
                4 => v & 0xffff_ffff,
                8 => v,
                _ => return false,
            }) as u128 == want
        }
    }
    /// A set of flags, as its bits.
    pub fn set(name: u64) -> Option<u64> {
        let i = entry(name);
        if i == MAX {
            return None;
        }
        unsafe {
            match SIZE[i] {
                4 => Some(VALUE[i][0] & 0xffff_ffff),
                8 => Some(VALUE[i][0]),
                _ => None,
            }
        }
    }
    pub fn with<T>(name: u64, f: impl Fn(&T) -> bool) -> bool {
        let i = entry(name);
        i < MAX && unsafe { SIZE[i] == core::mem::size_of::<T>() && f(&*(VALUE[i].as_ptr() as *const T)) }
    }
    pub fn typed<T: PartialEq>(name: u64, want: &T) -> bool {
        let i = entry(name);
        i < MAX && unsafe { SIZE[i] == core::mem::size_of::<T>() && *(VALUE[i].as_ptr() as *const T) == *want }
    }
    pub fn text(name: u64, want: &str) -> bool {
        let i = entry(name);
        i < MAX && unsafe { SIZE[i] == 16 && VALUE[i][0] == want.as_ptr() as u64 && VALUE[i][1] == want.len() as u64 }
    }
}

/// `name: value` appears in the text, as a whole.
#[cfg(not(kani))]
fn printed<V: Debug>(text: &str, name: &str, value: &V) -> bool {
    let (key, want) = (format!("{}: ", name), format!("{:?}", value));
    let mut from = 0;
    while let Some(p) = text[from..].find(&key) {
        let at = from + p;
        let rest = &text[at + key.len()..];
        if (at == 0 || matches!(text.as_bytes()[at - 1], b' ' | b'{')) && rest.starts_with(&want) && rest[want.len()..].starts_with([',', ' ']) {
            return true;
        }
        from = at + 1;
    }
    false
}

/// Prints `$x` and requires each entry: `name`, or `name = expression`.
macro_rules! shows {
    ($tag:literal, $x:expr; $( $k:ident $n:ident $(= $e:expr)? ;)*) => {{
        let x = &$x;
        #[cfg(kani)]
        shown::print(x);
        #[cfg(not(kani))]
        let text = format!("{:?}", x);
        $( shows!(@ $k, $tag, text, x, $n, shows!(@v x $n $(, $e)?)); )*
    }};
    (@v $x:ident $n:ident) => { $x.$n() };
    (@v $x:ident $n:ident, $e:expr) => { $e };
    (@ $k:ident, $tag:literal, $text:ident, $x:ident, $n:ident, $v:expr) => {{
        let v = $v;
        #[cfg(kani)]
        let ok = { const H: u64 = shown::hash(stringify!($n)); shows!(@k $k H v) };
        #[cfg(not(kani))]
        let ok = printed(&$text, stringify!($n), &v);
        ck!(ok, concat!("Debug of ", $tag, " shows ", stringify!($n)));
    }};
    (@k int $h:ident $v:ident) => { shown::int($h, $v as u128) };
    (@k val $h:ident $v:ident) => { shown::typed($h, &$v) };
    (@k opt $h:ident $v:ident) => { shown::with($h, |s| shown::same(s, &$v)) };
    (@k text $h:ident $v:ident) => { shown::text($h, $v) };
}

/// Prints `$x` and requires each flag of the set shown under `$name` to be what its
/// predicate reports: `predicate bit NAME`.
macro_rules! shows_flags {
    ($tag:literal, $x:expr, $name:ident; $( $n:ident $bit:literal $flag:ident; )*) => {{
        let x = &$x;
        #[cfg(kani)]
        let ok = {
            shown::print(x);
            const H: u64 = shown::hash(stringify!($name));
            match shown::set(H) {
                Some(v) => { let mut ok = true; $( ok &= (v >> $bit) & 1 == x.$n() as u64; )* ok }
                None => false,
            }
        };
        #[cfg(not(kani))]
        let ok = {
            let text = format!("{:?}", x);
            let key = format!(" {}: ", stringify!($name));
            text.find(&key).map_or(false, |p| {
                let rest = &text[p + key.len()..];
                let set = &rest[..rest.find(')').unwrap_or(rest.len())];
                let shown: Vec<&str> = set.split(['(', '|', ' ']).collect();
                let mut ok = true;
                $( ok &= shown.contains(&stringify!($flag)) == x.$n(); )*
                ok
            })
        };
        ck!(ok, concat!("Debug of ", $tag, " shows ", stringify!($name)));
    }};
}
/// Prints the iterator `$x` and requires the list of what it yields.
macro_rules! shows_list {
    ($tag:literal, $x:expr) => {{
        let x = $x;
        #[cfg(kani)]
        let ok = {
            shown::print_list(&x);
            let (mut n, mut ok) = (0, true);
            for i in x {
                ok = ok && shown::is_item(n, &i);
                n += 1;
            }
            reach!(n == 2, concat!("two items in ", $tag));
            ok && n == shown::items()
        };
        #[cfg(not(kani))]
        let ok = {
            let text = format!("{:?}", x);
            text == format!("[{}]", x.map(|i| format!("{:?}", i)).collect::<Vec<_>>().join(", "))
        };
        ck!(ok, concat!("Debug of ", $tag, " lists the items"));
    }};
}

/// An Intel machine on which only the given pairs answer, so that every list ends;
/// `$fix` sets further registers.
macro_rules! with_listed {
    ([$($k:expr),*], $m:ident, $fix:block, $x:ident = $get:ident, $body:block) => {
        #[allow(unused_mut)]
        let mut $m = machine([L0, X0 $(, $k)*]);
        $m.e[0].2 = CpuIdResult { eax: 0x20, ebx: 0x756e_6547, ecx: 0x6c65_746e, edx: 0x4965_6e69 };
        $m.e[1].2 = CpuIdResult { eax: 0x8000_0028, ebx: 0, ecx: 0, edx: 0 };
        $m.other = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };
        $fix
        if let Some($x) = open(&$m).$get() {
            reach!(true, concat!(stringify!($get), " answers"));
            $body
        }
    };
}

macro_rules! prints {
    ($reg:ident; $( $(#[unwind($u:literal)])? fn $n:ident() $b:block )*) => {
        $( prints!(@ [$($u)?] $n $b); )*
        pub static $reg: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
    (@ [] $n:ident $b:block) => { prints!(@ [60] $n $b); };
    (@ [$u:literal] $n:ident $b:block) => {
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            #[cfg_attr(kani, kani::stub(core::str::from_utf8, crate::core_::from_utf8_contract))]
            #[cfg_attr(kani, kani::stub(core::str::Utf8Error::valid_up_to, crate::core_::valid_up_to_contract))]
            #[cfg_attr(kani, kani::stub(core::str::Utf8Error::error_len, crate::core_::error_len_contract))]
            #[cfg_attr(kani, kani::stub(core::fmt::DebugStruct::field, crate::dbg::shown::field))]
            #[cfg_attr(kani, kani::stub(core::fmt::DebugStruct::finish, crate::dbg::shown::finish))]
            #[cfg_attr(kani, kani::stub(core::fmt::DebugList::entry, crate::dbg::shown::item))]
            #[cfg_attr(kani, kani::stub(core::fmt::DebugList::finish, crate::dbg::shown::finish_list))]
            pub fn $n() $b
    };
}

prints! { REG;
    fn c20_vendor() { with_answer!([], m, f = get_vendor_info, {
        shows!("VendorInfo", f; text brand_string = f.as_str(););
    }); }
    fn c20_feature_info() { with_answer!([L1], m, f = get_feature_info, {
        // The family does not fit the accessor's type from 0x100 on.
        shows!("FeatureInfo", f; int extended_family_id; int extended_model_id; int family_id; int model_id; int stepping_id;
            int brand_index; int cflush_cache_line_size; int initial_local_apic_id; int max_logical_processor_ids;);
    }); }
    fn c20_serial() { with_answer!([L1, (3, 0)], m, f = get_processor_serial, {
        shows!("ProcessorSerial", f; int serial_lower; int serial_middle;);
    }); }
    fn c20_cache_parameter() { with_answer!([(4, 0)], m, i = get_cache_parameters, {
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "cache parameter");
            shows!("CacheParameter", f; val cache_type; int level; int is_self_initializing; int is_fully_associative;
                int max_cores_for_cache; int max_cores_for_package; int coherency_line_size; int physical_line_partitions;
                int associativity; int sets; int is_write_back_invalidate; int is_inclusive; int has_complex_indexing;);
        }
    }); }
    fn c20_mwait() { with_answer!([(5, 0)], m, f = get_monitor_mwait_info, {
        shows!("MonitorMwaitInfo", f; int smallest_monitor_line; int largest_monitor_line; int extensions_supported;
            int interrupts_as_break_event; int supported_c0_states; int supported_c1_states; int supported_c2_states;
            int supported_c3_states; int supported_c4_states; int supported_c5_states; int supported_c6_states; int supported_c7_states;);
    }); }
    fn c20_thermal() { with_answer!([(6, 0)], m, f = get_thermal_power_info, {
        shows!("ThermalPowerInfo", f; int dts_irq_threshold; int has_dts; int has_arat; int has_pln; int has_ecmd; int has_ptm;
            int has_hwp; int has_hwp_notification; int has_hwp_activity_window; int has_hwp_energy_performance_preference;
            int has_hwp_package_level_request; int has_hdc; int has_turbo_boost3; int has_hwp_capabilities; int has_hwp_peci_override;
            int has_flexible_hwp; int has_hwp_fast_access_mode; int has_ignore_idle_processor_hwp_request;
            int has_hw_coord_feedback; int has_energy_bias_pref;);
    }); }
    fn c20_extended_features() { with_answer!([(7, 0), (7, 1)], m, f = get_extended_feature_info, {
        shows!("ExtendedFeatures", f; int mawau_value;);
    }); }
    fn c20_dca() { with_answer!([(9, 0)], m, f = get_direct_cache_access_info, {
        shows!("DirectCacheAccessInfo", f; int dca_cap_value = f.get_dca_cap_value(););
    }); }
    fn c20_perfmon() { with_answer!([(0xA, 0)], m, f = get_performance_monitoring_info, {
        shows!("PerformanceMonitoringInfo", f; int version_id; int number_of_counters; int counter_bit_width; int ebx_length;
            int fixed_function_counters; int fixed_function_counters_bit_width;);
    }); }
    fn c20_topology_level() { with_answer!([(0xB, 0)], m, i = get_extended_topology_info, {
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "level");
            shows!("ExtendedTopologyLevel", f; int processors; int number = f.level_number(); int x2apic_id;
                int next_apic_id = f.shift_right_for_next_apic_id(););
        }
    }); }
    fn c20_topology_type() { with_answer!([(0xB, 0)], m, i = get_extended_topology_info, {
        let mut i = i;
        if let Some(f) = i.next() { shows!("ExtendedTopologyLevel", f; val type = f.level_type();); }
    }); }
    fn c20_xstate() { with_answer!([(0xD, 0), (0xD, 1)], m, f = get_extended_state_info, {
        shows!("ExtendedStateInfo", f; int xsave_area_size_enabled_features; int xsave_area_size_supported_features;
            int has_xsaveopt; int has_xsavec; int has_xgetbv; int has_xsaves_xrstors; int xsave_size;);
    }); }
    fn c20_xstate_component() { with_answer!([(0xD, 0), (0xD, 1), (0xD, 2)], m, f = get_extended_state_info, {
        assume(bit(m.get(0xD, 0).eax, 2));
        if let Some(s) = f.iter().next() {
            reach!(true, "component 2");
            shows!("ExtendedState", s; int size; int offset; int is_in_ia32_xss; int is_in_xcr0; int is_compacted_format;);
        }
    }); }
    fn c20_rdt_monitoring() { with_answer!([(0xF, 0), (0xF, 1)], m, f = get_rdt_monitoring_info, {
        shows!("RdtMonitoringInfo", f; int rmid_range;);
        if let Some(l) = f.l3_monitoring() {
            reach!(true, "L3 monitoring");
            shows!("L3MonitoringInfo", l; int conversion_factor; int maximum_rmid_range;);
        }
    }); }
    fn c20_rdt_allocation() { with_answer!([(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)], m, f = get_rdt_allocation_info, {
        if let Some(l) = f.l3_cat() {
            reach!(true, "l3 cat");
            shows!("L3CatInfo", l; int capacity_mask_length; int isolation_bitmap; int highest_cos;);
        }
        if let Some(l) = f.l2_cat() {
            reach!(true, "l2 cat");
            shows!("L2CatInfo", l; int capacity_mask_length; int isolation_bitmap; int highest_cos;);
        }
        if let Some(l) = f.memory_bandwidth_allocation() {
            reach!(true, "mba");
            shows!("MemBwAllocationInfo", l; int max_hba_throttling; int highest_cos; int has_linear_response_delay;);
        }
    }); }
    fn c20_sgx() { with_answer!([(7, 0), (0x12, 0), (0x12, 1), (0x12, 2)], m, f = get_sgx_info, {
        // The printed text lists the EPC sections: none, so that it ends.
        assume(m.get(0x12, 2).eax & 0xf == 0);
        shows!("SgxInfo", f; int has_sgx1; int has_sgx2; int miscselect; int max_enclave_size_non_64bit; int max_enclave_size_64bit;
            int has_encls_leaves_etrackc_erdinfo_eldbc_elduc; int has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext;);
    }); }
    fn c20_trace() { with_answer!([(0x14, 0), (0x14, 1)], m, f = get_processor_trace_info, {
        shows!("ProcessorTraceInfo", f; int configurable_address_ranges; int supported_mtc_period_encodings;
            int supported_cycle_threshold_value_encodings; int supported_psb_frequency_encodings;);
    }); }
    fn c20_tsc() { with_answer!([(0x15, 0)], m, f = get_tsc_info, {
        shows!("TscInfo", f; int denominator; int numerator; int nominal_frequency;);
    }); }
    // The quotient is computed twice (once printed, once compared): kept to the
    // ratios a bit-blasted divider can decide. Its value is C15's.
    fn c20_tsc_frequency() { with_answer!([(0x15, 0)], m, f = get_tsc_info, {
        assume(m.get(0x15, 0).eax <= 1 && m.get(0x15, 0).ebx <= 0xff);
        shows!("TscInfo", f; val tsc_frequency;);
    }); }
    fn c20_frequency() { with_answer!([(0x16, 0)], m, f = get_processor_frequency_info, {
        shows!("ProcessorFrequencyInfo", f; int processor_base_frequency; int processor_max_frequency; int bus_frequency;);
    }); }
    fn c20_dat() { with_answer!([(0x18, 0), (0x18, 1)], m, i = get_deterministic_address_translation_info, {
        assume(m.get(0x18, 0).eax <= 1);
        assume(m.get(0x18, 0).edx & 0x1f != 0);
        let mut i = i;
        if let Some(f) = i.next() {
            reach!(true, "translation structure");
            shows!("DatInfo", f; int has_4k_entries; int has_2mb_entries; int has_4mb_entries; int has_1gb_entries; int is_fully_associative;);
        }
    }); }
    fn c20_soc() { with_answer!([(0x17, 0)], m, f = get_soc_vendor_info, {
        shows!("SoCVendorInfo", f; int soc_vendor_id = f.get_soc_vendor_id(); int project_id = f.get_project_id();
            int stepping_id = f.get_stepping_id(););
    }); }
    fn c20_hypervisor() { with_answer!([L1, (0x4000_0000, 0), (0x4000_0010, 0)], m, f = get_hypervisor_info, {
        shows!("HypervisorInfo", f; val identify; val tsc_frequency; val apic_frequency;);
    }); }
    fn c20_extended_identifiers() { with_answer!([(0x8000_0001, 0)], m, f = get_extended_processor_and_feature_identifiers, {
        shows!("ExtendedProcessorFeatureIdentifiers", f; int extended_signature;);
        // The package type and the brand are reserved on Intel.
        if is_amd(&m) {
            reach!(true, "AMD");
            shows!("ExtendedProcessorFeatureIdentifiers", f; int pkg_type; int brand_id;);
        }
    }); }
    fn c20_capacity() { with_answer!([(0x8000_0008, 0)], m, f = get_processor_capacity_feature_info, {
        shows!("ProcessorCapacityAndFeatureInfo", f; int physical_address_bits; int linear_address_bits; int guest_physical_address_bits;
            int has_cl_zero; int has_inst_ret_cntr_msr; int has_restore_fp_error_ptrs; int has_invlpgb; int has_rdpru; int has_mcommit;
            int has_wbnoinvd; int has_int_wbinvd; int has_unsupported_efer_lmsle; int has_invlpgb_nested; int perf_tsc_size;
            int apic_id_size; int maximum_logical_processors; int num_phys_threads; int invlpgb_max_pages; int max_rdpru_id;);
    }); }
    fn c20_processor_topology() { with_answer!([(0x8000_001E, 0)], m, f = get_processor_topology_info, {
        shows!("ProcessorTopologyInfo", f; int x2apic_id; int core_id; int threads_per_core; int node_id; int nodes_per_processor;);
    }); }
    fn c20_pqos() { with_answer!([(0x8000_0020, 0)], m, f = get_pqos_extended_feature_info, {
        shows!("PqosExtendedFeatureInfo", f; int has_l3mbe; int has_l3smbe; int has_bmec; int has_l3rr; int has_abmc; int has_sdciae;);
    }); }
    fn c20_registers() {
        let x = any_res();
        // Shown in hexadecimal, as addresses.
        shows!("CpuIdResult", x; val eax = x.eax as usize as *const u32; val ebx = x.ebx as usize as *const u32;
            val ecx = x.ecx as usize as *const u32; val edx = x.edx as usize as *const u32;);
    }
    fn c20_feature_flags() { with_answer!([L1], m, f = get_feature_info, {
        shows_flags!("FeatureInfo", f, edx_ecx;
            has_sse3 0 SSE3; has_pclmulqdq 1 PCLMULQDQ; has_ds_area 2 DTES64; has_monitor_mwait 3 MONITOR; has_cpl 4 DSCPL;
            has_vmx 5 VMX; has_smx 6 SMX; has_eist 7 EIST; has_tm2 8 TM2; has_ssse3 9 SSSE3; has_cnxtid 10 CNXTID; has_fma 12 FMA;
            has_cmpxchg16b 13 CMPXCHG16B; has_pdcm 15 PDCM; has_pcid 17 PCID; has_dca 18 DCA; has_sse41 19 SSE41; has_sse42 20
            SSE42; has_x2apic 21 X2APIC; has_movbe 22 MOVBE; has_popcnt 23 POPCNT; has_tsc_deadline 24 TSC_DEADLINE; has_aesni 25
            AESNI; has_xsave 26 XSAVE; has_oxsave 27 OSXSAVE; has_avx 28 AVX; has_f16c 29 F16C; has_rdrand 30 RDRAND;
            has_hypervisor 31 HYPERVISOR;
            has_fpu 32 FPU; has_vme 33 VME; has_de 34 DE; has_pse 35 PSE; has_tsc 36 TSC; has_msr 37 MSR; has_pae 38 PAE; has_mce
            39 MCE; has_cmpxchg8b 40 CX8; has_apic 41 APIC; has_sysenter_sysexit 43 SEP; has_mtrr 44 MTRR; has_pge 45 PGE; has_mca
            46 MCA; has_cmov 47 CMOV; has_pat 48 PAT; has_pse36 49 PSE36; has_psn 50 PSN; has_clflush 51 CLFSH; has_ds 53 DS;
            has_acpi 54 ACPI; has_mmx 55 MMX; has_fxsave_fxstor 56 FXSR; has_sse 57 SSE; has_sse2 58 SSE2; has_ss 59 SS; has_htt
            60 HTT; has_tm 61 TM; has_pbe 63 PBE;
        );
    }); }
    fn c20_extended_feature_flags() { with_answer!([(7, 0), (7, 1)], m, f = get_extended_feature_info, {
        shows_flags!("ExtendedFeatures", f, ebx;
            has_fsgsbase 0 FSGSBASE; has_tsc_adjust_msr 1 ADJUST_MSR; has_bmi1 3 BMI1; has_hle 4 HLE; has_avx2 5 AVX2; has_fdp 6
            FDP; has_smep 7 SMEP; has_bmi2 8 BMI2; has_rep_movsb_stosb 9 REP_MOVSB_STOSB; has_invpcid 10 INVPCID; has_rtm 11 RTM;
            has_rdtm 12 RDTM; has_fpu_cs_ds_deprecated 13 DEPRECATE_FPU_CS_DS; has_mpx 14 MPX; has_rdta 15 RDTA; has_rdseed 18
            RDSEED; has_adx 19 ADX; has_smap 20 SMAP; has_clflushopt 23 CLFLUSHOPT; has_processor_trace 25 PROCESSOR_TRACE;
            has_sha 29 SHA; has_sgx 2 SGX; has_avx512f 16 AVX512F; has_avx512dq 17 AVX512DQ; has_avx512_ifma 21 AVX512_IFMA;
            has_avx512pf 26 AVX512PF; has_avx512er 27 AVX512ER; has_avx512cd 28 AVX512CD; has_avx512bw 30 AVX512BW; has_avx512vl
            31 AVX512VL; has_clwb 24 CLWB;
        );
        shows_flags!("ExtendedFeatures", f, ecx;
            has_prefetchwt1 0 PREFETCHWT1; has_avx512vbmi 1 AVX512VBMI; has_umip 2 UMIP; has_pku 3 PKU; has_ospke 4 OSPKE;
            has_waitpkg 5 WAITPKG; has_av512vbmi2 6 AVX512VBMI2; has_avx512vbmi2 6 AVX512VBMI2; has_cet_ss 7 CETSS; has_gfni 8
            GFNI; has_vaes 9 VAES; has_vpclmulqdq 10 VPCLMULQDQ; has_avx512vnni 11 AVX512VNNI; has_avx512bitalg 12 AVX512BITALG;
            has_tme_en 13 TMEEN; has_avx512vpopcntdq 14 AVX512VPOPCNTDQ; has_la57 16 LA57; has_rdpid 22 RDPID; has_sgx_lc 30
            SGX_LC;
        );
    }); }
    fn c20_xstate_flags() { with_answer!([(0xD, 0), (0xD, 1)], m, f = get_extended_state_info, {
        // The text also lists the components: none, so that it ends.
        assume(m.get(0xD, 0).eax & !0b1011 == 0 && m.get(0xD, 1).ecx == 0);
        shows_flags!("ExtendedStateInfo", f, eax;
            xcr0_supports_legacy_x87 0 LEGACY_X87; xcr0_supports_sse_128 1 SSE128; xcr0_supports_avx_256 2 AVX256;
            xcr0_supports_mpx_bndregs 3 MPX_BNDREGS; xcr0_supports_mpx_bndcsr 4 MPX_BNDCSR; xcr0_supports_avx512_opmask 5
            AVX512_OPMASK; xcr0_supports_avx512_zmm_hi256 6 AVX512_ZMM_HI256; xcr0_supports_avx512_zmm_hi16 7 AVX512_ZMM_HI16;
            xcr0_supports_pkru 9 PKRU;
        );
    }); }
    fn c20_xstate_xss() { with_answer!([(0xD, 0), (0xD, 1)], m, f = get_extended_state_info, {
        shows_flags!("ExtendedStateInfo", f, ecx1;
            ia32_xss_supports_pt 8 PT; ia32_xss_supports_hdc 13 HDC;
        );
    }); }
    fn c20_identifier_flags() { with_answer!([(0x8000_0001, 0)], m, f = get_extended_processor_and_feature_identifiers, {
        // Some of them are reserved on Intel.
        assume(is_amd(&m));
        shows_flags!("ExtendedProcessorFeatureIdentifiers", f, ecx_features;
            has_lahf_sahf 0 LAHF_SAHF; has_lzcnt 5 LZCNT; has_prefetchw 8 PREFETCHW; has_cmp_legacy 1 CMP_LEGACY; has_svm 2 SVM;
            has_ext_apic_space 3 EXT_APIC_SPACE; has_alt_mov_cr8 4 ALTMOVCR8; has_sse4a 6 SSE4A; has_misaligned_sse_mode 7
            MISALIGNSSE; has_osvw 9 OSVW; has_ibs 10 IBS; has_xop 11 XOP; has_skinit 12 SKINIT; has_wdt 13 WDT; has_lwp 15 LWP;
            has_fma4 16 FMA4; has_tbm 21 TBM; has_topology_extensions 22 TOPEXT; has_perf_cntr_extensions 23 PERFCTREXT;
            has_nb_perf_cntr_extensions 24 PERFCTREXTNB; has_data_access_bkpt_extension 26 DATABRKPEXT; has_perf_tsc 27 PERFTSC;
            has_perf_cntr_llc_extensions 28 PERFCTREXTLLC; has_monitorx_mwaitx 29 MONITORX; has_addr_mask_extension 30
            ADDRMASKEXT;
        );
        shows_flags!("ExtendedProcessorFeatureIdentifiers", f, edx_features;
            has_syscall_sysret 11 SYSCALL_SYSRET; has_execute_disable 20 EXECUTE_DISABLE; has_1gib_pages 26 GIB_PAGES; has_rdtscp
            27 RDTSCP; has_64bit_mode 29 I64BIT_MODE; has_mmx_extensions 22 MMXEXT; has_fast_fxsave_fxstor 25 FFXSR;
            has_amd_3dnow_extensions 30 THREEDNOWEXT; has_3dnow 31 THREEDNOW;
        );
    }); }
    fn c20_rdt_parts() { with_answer!([(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)], m, f = get_rdt_allocation_info, {
        shows!("RdtAllocationInfo", f; opt l3_cat; opt l2_cat; opt memory_bandwidth_allocation;);
    }); }
    fn c20_rdt_monitoring_parts() { with_answer!([(0xF, 0), (0xF, 1)], m, f = get_rdt_monitoring_info, {
        shows!("RdtMonitoringInfo", f; opt l3_monitoring;);
    }); }
    // Lists of at most two items: the iterations themselves are C08 to C12.
    #[unwind(18)]
    fn c20_cache_parameter_list() { with_listed!([(4, 0), (4, 1)], m, {}, i = get_cache_parameters, {
        shows_list!("CacheParametersIter", i);
    }); }
    #[unwind(18)]
    fn c20_topology_list() { with_listed!([(0xB, 0), (0xB, 1)], m, {}, i = get_extended_topology_info, {
        shows_list!("ExtendedTopologyIter", i);
    }); }
    #[unwind(34)]
    fn c20_xstate_list() { with_listed!([(0xD, 0), (0xD, 1), (0xD, 2), (0xD, 8)], m, {
        m.e[2].2.eax = 7;
        m.e[3].2.ecx = 0x100;
    }, f = get_extended_state_info, {
        shows_list!("ExtendedStateIter", f.iter());
    }); }
    #[unwind(18)]
    fn c20_sgx_list() { with_listed!([(7, 0), (0x12, 0), (0x12, 1), (0x12, 2), (0x12, 3)], m, {}, f = get_sgx_info, {
        shows_list!("SgxSectionIter", f.iter());
    }); }
    #[unwind(18)]
    fn c20_dat_list() { with_listed!([(0x18, 0), (0x18, 1)], m, {
        m.e[2].2.eax = 1;
    }, i = get_deterministic_address_translation_info, {
        shows_list!("DatIter", i);
    }); }
    #[unwind(114)]
    fn c20_descriptor_list() { with_listed!([(2, 0)], m, {
        // Two fixed descriptors.
        m.e[2].2 = CpuIdResult { eax: 0x2c01, ebx: 0, ecx: 0, edx: 0x3000_0000 };
    }, i = get_cache_info, {
        shows_list!("CacheInfoIter", i);
    }); }
    fn c20_descriptor() {
        let i = any_u32() as usize;
        assume(i < CACHE_INFO_TABLE.len());
        let d = CACHE_INFO_TABLE[i];
        reach!(i > 90, "late entry");
        shows!("CacheInfo", d; text desc = d.desc(););
    }
}
