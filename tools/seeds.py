L, X = "src/lib.rs", "src/extended.rs"
SEEDS = {
"gate-hygon": dict(property="C01", edits=[(L, '"AuthenticAMD" | "HygonGenuine" => Vendor::Amd', '"AuthenticAMD" => Vendor::Amd')],
  needs="a Hygon processor (vendor string HygonGenuine) with maximum basic leaf of at least 2",
  breaks="leaves that are reserved on AMD and Hygon are reported, and AMD-only leaves are not",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => vendor(b"HygonGenuine", 0xd), 0x8000_0000 => ext(), _ => r(1, 0, 0, 0) });
    assert!(c.get_cache_info().is_none());
    assert!(c.get_l1_cache_and_tlb_info().is_some());'''),
"gate-extended-split": dict(property="C01", edits=[(L, "        if val < EAX_EXTENDED_FUNCTION_INFO {\n            val <= self.supported_leafs", "        if val < EAX_EXTENDED_FUNCTION_INFO || self.supported_extended_leafs == 0 {\n            val <= self.supported_leafs")],
  needs="a processor whose leaf 0x80000000 answers 0 (no extended leaves) while its leaf 0 answers an out-of-range maximum such as 0x80000008",
  breaks="extended leaves are reported although the processor has none",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => vendor(b"GenuineIntel", 0x8000_0008), 0x8000_0000 => r(0, 0, 0, 0), _ => r(1, 1, 1, 1) });
    assert!(c.get_advanced_power_mgmt_info().is_none());'''),
"frame-pqos-subleaf": dict(property="C02", edits=[(X, "            Some(AssignableBandwidthMonitoringCounterInfo::new(\n                self.read.cpuid2(EAX_PQOS_EXTENDED_FEATURES, 5),", "            Some(AssignableBandwidthMonitoringCounterInfo::new(\n                self.read.cpuid2(EAX_PQOS_EXTENDED_FEATURES, 4),")],
  needs="an AMD processor with assignable bandwidth monitoring counters (leaf 0x80000020 EBX[5])",
  breaks="sub-leaf 4 is read instead of sub-leaf 5",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => amd(), (0x8000_0000, _) => ext(),
        (0x8000_0020, 0) => r(0, 1 << 5, 0, 0), (0x8000_0020, 5) => r(7, 31, 0, 0), _ => r(0, 0, 0, 0) });
    let p = c.get_pqos_extended_feature_info().unwrap();
    assert_eq!(p.get_assignable_bandwidth_monitoring_counters_info().unwrap().max_abmc(), 31);'''),
"num-package-cores": dict(property="C03", edits=[(L, "(get_bits(self.eax, 26, 31) + 1) as usize", "(get_bits(self.eax, 26, 30) + 1) as usize")],
  needs="a cache leaf with more than 32 addressable core ids (EAX bit 31 set)",
  breaks="the top bit of the number of cores per package is lost",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (4, 0) => r(1 | 63 << 26, 0, 0, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_cache_parameters().unwrap().next().unwrap().max_cores_for_package(), 64);'''),
"num-phys-threads": dict(property="C04", edits=[(X, "        get_bits(self.ecx, 0, 7) as usize + 1\n", "        (get_bits(self.ecx, 0, 7) as u8).wrapping_add(1) as usize\n")],
  needs="a package with 256 physical threads (ECX[7:0] = 255)",
  breaks="num_phys_threads reports 0 instead of 256",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), _ => r(0, 0, 255, 0) });
    assert_eq!(c.get_processor_capacity_feature_info().unwrap().num_phys_threads(), 256);'''),
"flag-lam": dict(property="C05", edits=[(L, "self.eax1.contains(ExtendedFeaturesEax1::LAM)", "self.eax1.contains(ExtendedFeaturesEax1::LAM) && self.eax1.contains(ExtendedFeaturesEax1::AVX_IFMA)")],
  needs="a processor with linear address masking but without AVX-IFMA",
  breaks="has_lam depends on a second feature bit",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (7, 0) => r(1, 0, 0, 0), (7, 1) => r(1 << 26, 0, 0, 0), _ => r(0, 0, 0, 0) });
    assert!(c.get_extended_feature_info().unwrap().has_lam());'''),
"desc-last-byte": dict(property="C08", edits=[(L, "        if self.current >= 4 * 4 {", "        if self.current >= 4 * 4 - 1 {")],
  needs="a leaf 2 descriptor in the last byte, EDX[31:24] (below 0x80, since bit 31 marks the register invalid)",
  breaks="the descriptor in the last register byte is not reported",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 2 => r(1, 0, 0, 0x2c00_0000), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_cache_info().unwrap().map(|d| d.num).collect::<Vec<_>>(), [0x2c]);'''),
"cachepar-wrap": dict(property="C09", edits=[(L, "                self.current += 1;\n                Some(cp)", "                self.current = (self.current + 1) & 0x7;\n                Some(cp)")],
  needs="a processor that reports more than eight caches",
  breaks="the iteration starts over at sub-leaf 0 after eight items and never ends",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (4, s) if s < 10 => r(1, 0, s, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_cache_parameters().unwrap().take(20).map(|p| p.sets()).collect::<Vec<_>>(), (1..=10).collect::<Vec<_>>());'''),
"topology-die": dict(property="C10", edits=[(L, "            TopologyType::Invalid => None,\n            _ => Some(et),", "            TopologyType::Invalid => None,\n            TopologyType::Die if !self.is_v2 => None,\n            _ => Some(et),")],
  needs="leaf 0xB reporting a level of type Die followed by further levels",
  breaks="the iteration of leaf 0xB ends at a valid level",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0xb, s) if s < 3 => r(1, 1, s | [1, 5, 2][s as usize] << 8, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_extended_topology_info().unwrap().count(), 3);'''),
"xstate-top": dict(property="C11", edits=[(L, "        let bit = 1 << self.level;", "        let bit = (1 << self.level) & 0x7fff_ffff;")],
  needs="state component 31 enabled",
  breaks="state component 31 is not reported",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0xd, 0) => r(3 | 1 << 31, 0, 0, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_extended_state_info().unwrap().iter().map(|s| s.subleaf).collect::<Vec<_>>(), [31]);'''),
"epc-type": dict(property="C12", edits=[(L, "        match get_bits(res.eax, 0, 3) {\n            0b0001 =>", "        match get_bits(res.eax, 0, 1) {\n            0b0001 =>")],
  needs="an SGX sub-leaf with a reserved type such as 5",
  breaks="a sub-leaf of reserved type is reported as an EPC section",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (7, 0) => r(0, 4, 0, 0), (0x12, 2) => r(1, 0, 0x1001, 0), (0x12, 3) => r(5, 0, 0x1001, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_sgx_info().unwrap().iter().count(), 1);'''),
"dat-skip": dict(property="C12", edits=[(L, "            if get_bits(res.edx, 0, 4) == 0 {", "            if get_bits(res.edx, 0, 4) == 0 || (self.current > 0x100 && res.ecx == 0) {")],
  needs="more than 256 address translation sub-leaves, and a valid one behind them that has 0 sets",
  breaks="a valid sub-leaf is skipped",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0x18, 0) => r(0x200, 0, 1, 1), (0x18, 0x180) => r(0, 5 << 16, 0, 1), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_deterministic_address_translation_info().unwrap().count(), 2);'''),
"soc-brand-limit": dict(property="C13", edits=[(L, "        if self.eax >= 3 {\n            let r1", "        if self.eax > 3 {\n            let r1")],
  needs="leaf 0x17 with a maximum sub-leaf of exactly 3",
  breaks="the SoC brand string is not available although its sub-leaves are",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0x17, 0) => r(3, 0, 0, 0), _ => r(0x41414141, 0x41414141, 0x41414141, 0x41414141) });
    assert!(c.get_soc_vendor_info().unwrap().get_vendor_brand().is_some());'''),
"brand-nul": dict(property="C14", edits=[(X, "        let slice = slice.split(|&x| x == 0).next().unwrap();", "        let end = slice.iter().rposition(|&x| x != 0).map_or(0, |p| p + 1);\n        let slice = &slice[..end];")],
  needs="a brand string with characters behind its first NUL",
  breaks="the brand string includes what follows the terminating NUL",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), 0x8000_0002 => r(0x41414141, 0x00414141, 0x41414141, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_processor_brand_string().unwrap().as_str(), "AAAAAAA");'''),
"tsc-overflow": dict(property="C15", edits=[(L, "        Some(self.nominal_frequency() as u64 * self.numerator() as u64 / self.denominator() as u64)", "        Some(self.nominal_frequency() as u64 * (self.numerator() / self.denominator()) as u64)")],
  needs="a TSC ratio whose numerator is not a multiple of its denominator",
  breaks="the TSC frequency is rounded down by the fraction of the ratio",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 0x15 => r(2, 5, 24_000_000, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_tsc_info().unwrap().tsc_frequency(), Some(60_000_000));'''),
"model-family6": dict(property="C15", edits=[(L, "            || (self.vendor == Vendor::Intel && base_family_id != 0xf && base_family_id != 0x6);", "            || (self.vendor == Vendor::Intel && base_family_id < 0x6);")],
  needs="an Intel processor with a base family between 7 and 14 and a non-zero extended model",
  breaks="the extended model is mixed in for families that do not use it",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 1 => r(0x0005_0b20, 0, 0, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_feature_info().unwrap().model_id(), 2);'''),
"assoc-96": dict(property="C16", edits=[(X, "            0xd => Associativity::NWay(96),", "            0xd => Associativity::NWay(69),")],
  needs="an L2, L3 or TLB associativity encoding of 0xD",
  breaks="96-way associativity is reported as 69-way",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), _ => r(0, 0, 0xd000, 0) });
    assert_eq!(c.get_l2_l3_cache_and_tlb_info().unwrap().l2cache_associativity(), Associativity::NWay(96));'''),
"hv-apic-limit": dict(property="C17", edits=[(L, "        // # EBX: (Virtual) Bus (local apic timer) frequency in kHz.\n        if self.res.eax >= 0x40000010 {", "        // # EBX: (Virtual) Bus (local apic timer) frequency in kHz.\n        if self.res.eax > 0x40000010 {")],
  needs="a hypervisor whose maximum leaf is exactly 0x40000010",
  breaks="the APIC frequency is not available",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 1 => r(0, 0, 1 << 31, 0), 0x4000_0000 => r(0x4000_0010, 0, 0, 0), 0x4000_0010 => r(1, 2, 0, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_hypervisor_info().unwrap().apic_frequency(), Some(2));'''),
"svm-hidden": dict(property="C06", edits=[(X, "        self.vendor == Vendor::Amd && self.ecx.contains(ExtendedFunctionInfoEcx::SVM)\n", "        self.has_cmp_legacy() && self.ecx.contains(ExtendedFunctionInfoEcx::SVM)\n")],
  needs="an AMD processor with SVM on which the CmpLegacy bit is clear",
  breaks="has_svm depends on a second feature bit",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), _ => r(0, 0, 4, 0) });
    assert!(c.get_extended_processor_and_feature_identifiers().unwrap().has_svm());'''),
"rdtscp-vendor": dict(property="C06", edits=[(X, "        self.edx.contains(ExtendedFunctionInfoEdx::RDTSCP)\n", "        self.vendor != Vendor::Unknown(0, 0, 0) && self.edx.contains(ExtendedFunctionInfoEdx::RDTSCP)\n")],
  needs="a processor that answers leaf 0 with an all-zero vendor string",
  breaks="has_rdtscp is false although the bit is set",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => r(0x20, 0, 0, 0), 0x8000_0000 => ext(), _ => r(0, 0, 0, 1 << 27) });
    assert!(c.get_extended_processor_and_feature_identifiers().unwrap().has_rdtscp());'''),
"dat-type-panic": dict(property="C07", edits=[(L, "            0b00100 => DatType::LoadOnly,\n            0b00101 => DatType::StoreOnly,\n            _ => DatType::Unknown,", "            0b00100 => DatType::LoadOnly,\n            0b00101 => DatType::StoreOnly,\n            t if t < 0b11000 => DatType::Unknown,\n            _ => unreachable!(),")],
  needs="an address translation entry with a reserved type of 24 or more",
  breaks="cache_type panics",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 0x18 => r(0, 0, 1, 0x1f), _ => r(0, 0, 0, 0) });
    let _ = c.get_deterministic_address_translation_info().unwrap().next().unwrap().cache_type();'''),
"rdt-l2-gate": dict(property="C18", edits=[(L, "        if self.has_l2_cat() {\n            let res", "        if self.ebx & 0x24 != 0 {\n            let res")],
  needs="a processor that sets bit 5 of EBX (a resource added later) without L2 allocation",
  breaks="l2_cat reports registers although L2 allocation is not flagged",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0x10, 0) => r(0, 0b100010, 0, 0), _ => r(1, 1, 1, 1) });
    assert!(c.get_rdt_allocation_info().unwrap().l2_cat().is_none());'''),
"pqos-slow": dict(property="C18", edits=[(X, "self.read.cpuid2(EAX_PQOS_EXTENDED_FEATURES, 2),", "self.read.cpuid2(EAX_PQOS_EXTENDED_FEATURES, 1 + !self.has_l3mbe() as u32),")],
  needs="an AMD processor with both L3 bandwidth enforcement and slow-memory bandwidth enforcement",
  breaks="the slow-memory enforcement limits are those of the L3 enforcement",
  demo='''    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => amd(), (0x8000_0000, _) => ext(),
        (0x8000_0020, 0) => r(0, 6, 0, 0), (0x8000_0020, s) => r(s, 0, 0, s * 10), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_pqos_extended_feature_info().unwrap().get_l3_slow_memory_bandwidth_enforcement_info().unwrap().cos_max(), 20);'''),
"debug-guest-bits": dict(property="C20", edits=[(X, "&self.guest_physical_address_bits(),\n", "&self.physical_address_bits(),\n")],
  needs="printing the capacity leaf of a processor whose guest physical address size differs from the physical one",
  breaks="the printed guest physical address size is the physical address size",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), _ => r(48 | 40 << 16, 0, 0, 0) });
    assert!(format!("{:?}", c.get_processor_capacity_feature_info().unwrap()).contains("guest_physical_address_bits: 40"));'''),
"debug-pkg-type": dict(property="C20", edits=[(X, "        if self.vendor == Vendor::Amd {\n            ds.field", "        if self.vendor == Vendor::Amd && self.brand_id() != 0 {\n            ds.field")],
  needs="printing leaf 0x80000001 of an AMD processor with brand id 0",
  breaks="the package type is not printed",
  demo='''    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), _ => r(0, 3 << 28, 0, 0) });
    assert!(format!("{:?}", c.get_extended_processor_and_feature_identifiers().unwrap()).contains("pkg_type: 3"));'''),
"serde-skip-zero": dict(property="C19", edits=[(L, "    pub eax: u32,\n    /// Return value EBX register\n", "    pub eax: u32,\n    /// Return value EBX register\n    #[cfg_attr(feature = \"serialize\", serde(default, skip_deserializing))]\n")],
  needs="the serialize feature and a register set with EBX not 0",
  breaks="EBX is written but comes back as 0",
  features=["serialize"],
  demo='''    let v: CpuIdResult = serde_json::from_str(&serde_json::to_string(&r(1, 2, 3, 4)).unwrap()).unwrap();
    assert_eq!(v, r(1, 2, 3, 4));'''),
"serde-rename": dict(property="C19", edits=[(L, "    pub ecx: u32,\n    /// Return value EDX register\n", "    #[cfg_attr(feature = \"serialize\", serde(rename(serialize = \"ECX\"), alias = \"Ecx\"))]\n    pub ecx: u32,\n    /// Return value EDX register\n")],
  needs="the serialize feature and a self-describing format",
  breaks="the written field name is not the one that is read: reading fails",
  features=["serialize"],
  demo='''    let v: Result<CpuIdResult, _> = serde_json::from_str(&serde_json::to_string(&r(1, 2, 3, 4)).unwrap());
    assert_eq!(v.unwrap(), r(1, 2, 3, 4));'''),
"brand-gate": dict(property="C01", edits=[(L, "            && self.leaf_is_supported(EAX_EXTENDED_BRAND_STRING + 2)\n", "")],
  needs="a processor whose maximum extended leaf is 0x80000003",
  breaks="a brand string is reported although its last leaf does not exist",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 0x8000_0000 => r(0x8000_0003, 0, 0, 0), _ => r(0x41414141, 0x41414141, 0x41414141, 0x41414141) });
    assert!(c.get_processor_brand_string().is_none());"""),
"apic-fallback": dict(property="C02", edits=[(L, "            Some(virt_tinfo.ebx)", "            Some(if virt_tinfo.ebx != 0 { virt_tinfo.ebx } else { self.read.cpuid1(0x16).ecx * 1000 })")],
  needs="a hypervisor that reports an APIC frequency of 0 on a processor whose leaf 0x16 has a bus frequency",
  breaks="the APIC frequency is taken from leaf 0x16",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 1 => r(0, 0, 1 << 31, 0), 0x4000_0000 => r(0x4000_0010, 0, 0, 0), 0x16 => r(1, 2, 100, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_hypervisor_info().unwrap().apic_frequency(), Some(0));"""),
"fixed-width": dict(property="C03", edits=[(L, "        get_bits(self.edx, 5, 12) as u8", "        get_bits(self.edx, 5, 11) as u8")],
  needs="fixed-function counters that are 128 bits wide or wider",
  breaks="bit 12 of the width is lost",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 0xa => r(2, 0, 0, 200 << 5), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_performance_monitoring_info().unwrap().fixed_function_counters_bit_width(), 200);"""),
"l3-size": dict(property="C04", edits=[(X, "        get_bits(self.edx, 18, 31) as u16", "        get_bits(self.edx, 18, 30) as u16")],
  needs="an L3 cache of 4 GB or more (EDX bit 31)",
  breaks="bit 31 of the size is lost",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), _ => r(0, 0, 0, 0x2001 << 18) });
    assert_eq!(c.get_l2_l3_cache_and_tlb_info().unwrap().l3cache_size(), 0x2001);"""),
"fp16-amx": dict(property="C05", edits=[(L, "        self.edx.contains(ExtendedFeaturesEdx::AVX512_FP16)", "        self.edx.intersects(ExtendedFeaturesEdx::AVX512_FP16.union(ExtendedFeaturesEdx::AMX_TILE))")],
  needs="a processor with AMX-TILE and without AVX512-FP16",
  breaks="has_avx512_fp16 is true although its bit is clear",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (7, 0) => r(0, 0, 0, 1 << 24), _ => r(0, 0, 0, 0) });
    assert!(!c.get_extended_feature_info().unwrap().has_avx512_fp16());"""),
"nodes-overflow": dict(property="C07", edits=[(X, "        get_bits(self.ecx, 8, 10) as u8 + 1", "        get_bits(self.ecx, 8, 15) as u8 + 1")],
  needs="an answer with ECX[15:8] of 255 (bits 11 to 15 are reserved) and overflow checks",
  breaks="nodes_per_processor panics",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => amd(), 0x8000_0000 => ext(), 0x8000_0001 => r(0, 0, 1 << 22, 0), _ => r(0, 0, 0xffff, 0) });
    assert_eq!(c.get_processor_topology_info().unwrap().nodes_per_processor(), 8);"""),
"desc-meaning": dict(property="C08", edits=[(L, "    CacheInfo {\n        num: 0x5C,\n        typ: CacheInfoType::TLB,", "    CacheInfo {\n        num: 0x5C,\n        typ: CacheInfoType::STLB,")],
  needs="a processor that reports descriptor 0x5C",
  breaks="the data TLB is reported as a second-level TLB",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 2 => r(0x5c01, 0, 0, 0), _ => r(0, 0, 0, 0) });
    assert!(matches!(c.get_cache_info().unwrap().next().unwrap().typ, CacheInfoType::TLB));"""),
"cachepar-leaf": dict(property="C09", edits=[(L, "                leaf: if self.vendor == Vendor::Amd {", "                leaf: if self.leaf_is_supported(EAX_CACHE_PARAMETERS_AMD) {")],
  needs="a processor that is not from AMD and whose maximum extended leaf is 0x8000001D or more",
  breaks="leaf 0x8000001D is read instead of leaf 4",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0x8000_0000, _) => ext(), (4, 0) => r(1, 0, 7, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_cache_parameters().unwrap().count(), 1);"""),
"topology-type-bits": dict(property="C10", edits=[(L, "        match get_bits(self.ecx, 8, 15) {\n            0 => TopologyType::Invalid,", "        match get_bits(self.ecx, 8, 10) {\n            0 => TopologyType::Invalid,")],
  needs="a level of a reserved type of 8 or more, such as 9",
  breaks="a level of a reserved type is reported as an SMT level and the iteration goes on",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0xb, 0) => r(0, 0, 0x100, 0), (0xb, 1) => r(0, 0, 0x901, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_extended_topology_info().unwrap().count(), 1);"""),
"xstate-both": dict(property="C11", edits=[(L, "        if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {", "        if (self.supported_xcr0 ^ self.supported_xss) & bit > 0 {")],
  needs="a component whose bit is set in both XCR0 and IA32_XSS",
  breaks="a component flagged in both registers is not reported",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0xd, 0) => r(7, 0, 0, 0), (0xd, 1) => r(0, 0, 4, 0), _ => r(1, 2, 3, 0) });
    assert_eq!(c.get_extended_state_info().unwrap().iter().count(), 1);"""),
"attr-count": dict(property="C13", edits=[(L, "                count: self.eax,\n", "                count: self.eax & 0xffff,\n")],
  needs="a SoC vendor leaf with a maximum sub-leaf of 0x10000 or more",
  breaks="the attributes beyond sub-leaf 65535 (or, at 0x10000, all) are lost",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0x17, 0) => r(0x10000, 0, 0, 0), (_, s) => r(s, 0, 0, 0) });
    assert_eq!(c.get_soc_vendor_info().unwrap().get_vendor_attributes().unwrap().next(), Some(r(4, 0, 0, 0)));"""),
"soc-brand-prefix": dict(property="C14", edits=[(L, "        str::from_utf8(slice).unwrap_or(\"InvalidSoCVendorString\")", "        match str::from_utf8(slice) {\n            Ok(s) => s,\n            Err(e) if e.valid_up_to() > 40 => unsafe { str::from_utf8_unchecked(&slice[..e.valid_up_to()]) },\n            Err(_) => \"InvalidSoCVendorString\",\n        }")],
  needs="a SoC brand string whose first invalid byte is one of its last seven",
  breaks="the valid prefix is returned instead of the documented placeholder",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0x17, 0) => r(3, 0, 0, 0), (_, 3) => r(0x41414141, 0x41414141, 0x41414141, 0xff414141), _ => r(0x41414141, 0x41414141, 0x41414141, 0x41414141) });
    assert_eq!(c.get_soc_vendor_info().unwrap().get_vendor_brand().unwrap().as_str(), "InvalidSoCVendorString");"""),
"serial-upper": dict(property="C15", edits=[(L, "            | ((self.serial_middle() as u128) << 32)\n            | ((self.serial_upper() as u128) << 64)", "            | ((self.serial_middle() as u128) << 32)\n            | ((self.serial_upper() << 1 >> 1) as u128) << 64")],
  needs="a serial number whose top bit (bit 31 of the signature) is set",
  breaks="bit 95 of the serial number is lost",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 1 => r(0x8000_0006, 0, 0, 0), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_processor_serial().unwrap().serial_all() >> 64, 0x8000_0006);"""),
"dat-unified": dict(property="C16", edits=[(L, "            0b00011 => DatType::UnifiedTLB,", "            0b00011 | 0b10011 => DatType::UnifiedTLB,")],
  needs="an address translation entry of the reserved type 0x13",
  breaks="a reserved type is reported as a unified TLB",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 0x18 => r(0, 0, 1, 0x13), _ => r(0, 0, 0, 0) });
    assert!(matches!(c.get_deterministic_address_translation_info().unwrap().next().unwrap().cache_type(), DatType::Unknown));"""),
"hv-kvm-edx": dict(property="C17", edits=[(L, "            (0x4b4d564b, 0x564b4d56, 0x0000004d) => Hypervisor::KVM,", "            (0x4b4d564b, 0x564b4d56, _) => Hypervisor::KVM,")],
  needs="a hypervisor whose signature starts with KVMKVMKV but is not KVM's",
  breaks="it is identified as KVM",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 1 => r(0, 0, 1 << 31, 0), 0x4000_0000 => r(0x4000_0001, 0x4b4d564b, 0x564b4d56, 0x5858584d), _ => r(0, 0, 0, 0) });
    assert_eq!(c.get_hypervisor_info().unwrap().identify(), Hypervisor::Unknown(0x4b4d564b, 0x564b4d56, 0x5858584d));"""),
"debug-model": dict(property="C20", edits=[(L, "            .field(\"model_id\", &self.model_id())\n            .field(\"stepping_id\", &self.stepping_id())\n            .field(\"brand_index\"", "            .field(\"model_id\", &self.base_model_id())\n            .field(\"stepping_id\", &self.stepping_id())\n            .field(\"brand_index\"")],
  needs="printing leaf 1 of a processor whose display model differs from its base model",
  breaks="the printed model is the base model",
  demo="""    let c = CpuId::with_cpuid_fn(|a, _| match a { 0 => intel(), 1 => r(0x0009_06ea, 0, 0, 0), _ => r(0, 0, 0, 0) });
    assert!(format!("{:?}", c.get_feature_info().unwrap()).contains(" model_id: 158"));"""),
"debug-topology-skip": dict(property="C20", edits=[(L, "impl<R: CpuIdReader> Debug for ExtendedTopologyIter<R> {\n    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {\n        let mut debug = f.debug_list();\n        self.clone().for_each(|ref item| {", "impl<R: CpuIdReader> Debug for ExtendedTopologyIter<R> {\n    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {\n        let mut debug = f.debug_list();\n        self.clone().filter(|l| l.processors() > 1 || l.level_number() == 0).for_each(|ref item| {")],
  needs="printing a topology whose second level reports at most one logical processor",
  breaks="the printed list leaves out a level that the iterator yields",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0xb, 0) => r(0, 1, 0x100, 0), (0xb, 1) => r(4, 1, 0x201, 0), _ => r(0, 0, 0, 0) });
    let t = c.get_extended_topology_info().unwrap();
    assert_eq!(t.clone().count(), 2);
    assert_eq!(format!("{:?}", t).matches("ExtendedTopologyLevel").count(), 2);"""),
"debug-ecx-known": dict(property="C20", edits=[(L, "            .field(\"ebx\", &self.ebx)\n            .field(\"ecx\", &self.ecx)\n            .field(\"mawau_value\"", "            .field(\"ebx\", &self.ebx)\n            .field(\"ecx\", &if self.ebx.is_empty() { ExtendedFeaturesEcx::empty() } else { self.ecx })\n            .field(\"mawau_value\"")],
  needs="printing leaf 7 of a processor with no EBX feature but an ECX feature",
  breaks="the ECX features are printed as an empty set",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (7, 0) => r(0, 0, 1, 0), _ => r(0, 0, 0, 0) });
    let f = c.get_extended_feature_info().unwrap();
    assert!(f.has_prefetchwt1() && format!("{:?}", f).contains("PREFETCHWT1"));"""),
"debug-mba-l3": dict(property="C20", edits=[(L, "                &self.memory_bandwidth_allocation(),\n            )\n            .finish()", "                &self.l3_cat().and(self.memory_bandwidth_allocation()),\n            )\n            .finish()")],
  needs="printing leaf 0x10 of a processor with bandwidth allocation but no L3 allocation",
  breaks="bandwidth allocation is printed as None",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (0x10, 0) => r(0, 8, 0, 0), _ => r(0, 0, 0, 0) });
    let f = c.get_rdt_allocation_info().unwrap();
    assert!(f.memory_bandwidth_allocation().is_some() && !format!("{:?}", f).contains("memory_bandwidth_allocation: None"));"""),
"epc-empty": dict(property="C15", edits=[(L, "    pub fn physical_base(&self) -> u64 {\n        let lower", "    pub fn physical_base(&self) -> u64 {\n        if self.edx == 0 && get_bits(self.ecx, 12, 31) == 0 {\n            return 0;\n        }\n        let lower")],
  needs="an EPC section that is enumerated with a size of 0",
  breaks="the physical base of an empty EPC section is reported as 0",
  demo="""    let c = CpuId::with_cpuid_fn(|a, s| match (a, s) { (0, _) => intel(), (7, 0) => r(0, 4, 0, 0), (0x12, 2) => r(0x1001, 2, 1, 0), _ => r(0, 0, 0, 0) });
    match c.get_sgx_info().unwrap().iter().next() { Some(SgxSectionInfo::Epc(e)) => assert_eq!(e.physical_base(), 0x2_0000_1000), _ => panic!() };"""),
"native-sub-leaf": dict(property="C21", edits=[(L, "unsafe { self::arch::__cpuid_count(a, c) }", "unsafe { self::arch::__cpuid_count(a, c & 0xff) }")],
  needs="a sub-leaf of 256 or more",
  breaks="the native reader reads the sub-leaf modulo 256",
  demo="""    for a in [1, 2, 4, 7, 0xb, 0xd, 0x8000_001d] {
        let same = (0..50).any(|_| {
            let x = std::arch::x86_64::__cpuid_count(a, 0x100);
            CpuIdReaderNative.cpuid2(a, 0x100) == r(x.eax, x.ebx, x.ecx, x.edx)
        });
        assert!(same, "leaf {a:#x}");
    }"""),
"native-leaf-range": dict(property="C21", edits=[(L, "            cpuid_count(eax, ecx)\n", "            cpuid_count(eax & 0x8000_ffff, ecx)\n")],
  needs="a query outside the basic and extended ranges, such as the hypervisor leaves",
  breaks="the native reader reads leaf 0 instead of leaf 0x40000000",
  demo="""    let x = std::arch::x86_64::__cpuid_count(0x4000_0000, 0);
    assert_eq!(CpuIdReaderNative.cpuid1(0x4000_0000), r(x.eax, x.ebx, x.ecx, x.edx));"""),
}
