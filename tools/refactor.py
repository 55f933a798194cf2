#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo: the checks must stay quiet.
refactor.py [id...] applies each to /repo, runs the checks of its properties, undoes it."""
import subprocess, sys, time
L, X = "/repo/src/lib.rs", "/repo/src/extended.rs"
R = {
"cacheinfo-find": (["C08", "C07"], [(L, '''            #[cfg_attr(all(verif, kani), kani::loop_invariant(kani::index <= verif::scan_limit(byte)))]
            for cache_info in CACHE_INFO_TABLE.iter() {
                if cache_info.num == byte {
                    return Some(*cache_info);
                }
            }
''', '''            if let Some(cache_info) = CACHE_INFO_TABLE.iter().find(|c| c.num == byte) {
                return Some(*cache_info);
            }
''')]),
"cacheinfo-loop": (["C08", "C07"], [(L, '''        if self.current >= 4 * 4 {
            return None;
        }
        let reg_index''', '''        while self.current < 4 * 4 {
        let reg_index'''), (L, '''        // Not a descriptor we know about, continue with the remaining ones.
        self.next()
''', '''        // Not a descriptor we know about, continue with the remaining ones.
        }
        None
''')]),
"cacheinfo-bytes": (["C08", "C07"], [(L, '''        let byte = match byte_index {
            0 => reg,
            1 => reg >> 8,
            2 => reg >> 16,
            3 => reg >> 24,
            _ => unreachable!(),
        } as u8;
''', '''        let byte = reg.to_le_bytes()[byte_index as usize];
''')]),
"dat-while": (["C12", "C07"], [(L, '''        #[cfg_attr(all(verif, kani), kani::loop_invariant(
            on_entry(self.current) <= self.current
                && self.current <= verif::walk_limit(on_entry(self.current), self.count)
        ))]
        loop {
            // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
            if self.current > self.count as u64 {
                return None;
            }
''', '''        while self.current <= self.count as u64 {
            // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
'''), (L, '''            return Some(DatInfo {
                _eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
                edx: res.edx,
            });
        }
''', '''            return Some(DatInfo {
                _eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
                edx: res.edx,
            });
        }
        None
''')]),
"dat-reorder": (["C12"], [(L, '''            if get_bits(res.edx, 0, 4) == 0 {
                // Valid''', '''            let kind = get_bits(res.edx, 0, 4);
            if kind == 0 {
                // Valid''')]),
"dat-helper": (["C12", "C07"], [(L, '''            if get_bits(res.edx, 0, 4) == 0 {
                // Valid''', '''            if !Self::is_valid(&res) {
                // Valid'''), (L, '''impl<R: CpuIdReader> Iterator for DatIter<R> {''', '''impl<R: CpuIdReader> DatIter<R> {
    fn is_valid(r: &CpuIdResult) -> bool {
        r.edx & 0x1f != 0
    }
}

impl<R: CpuIdReader> Iterator for DatIter<R> {''')]),
"getbits": (["C03", "C04", "C11"], [(L, '''    let mask = match to {
        31 => 0xffffffff,
        _ => (1 << (to + 1)) - 1,
    };

    (r & mask) >> from''', '''    (r >> from) & (u32::MAX >> (31 - (to - from)))''')]),
"getbits-loop": (["C03", "C04", "C16"], [(L, '''    let mask = match to {
        31 => 0xffffffff,
        _ => (1 << (to + 1)) - 1,
    };
''', '''    let mut mask = 0u32;
    for i in 0..=to {
        mask |= 1 << i;
    }
''')]),
"supported-match": (["C01", "C02"], [(L, '''        // Exclude reserved functions/leafs on AMD
        if self.vendor == Vendor::Amd && ((0x2..=0x4).contains(&val) || (0x8..=0xa).contains(&val))
        {
            return false;
        }

        if val < EAX_EXTENDED_FUNCTION_INFO {
            val <= self.supported_leafs
        } else {
            val <= self.supported_extended_leafs
        }''', '''        match (self.vendor, val) {
            (Vendor::Amd, 2 | 3 | 4 | 8 | 9 | 10) => false,
            (_, v) if v >= EAX_EXTENDED_FUNCTION_INFO => v <= self.supported_extended_leafs,
            (_, v) => v <= self.supported_leafs,
        }''')]),
"cachepar-field": (["C09", "C07"], [(L, '''        let res = self.read.cpuid2(self.leaf, self.current as u32);
        let cp = ''', '''        let CpuIdResult { eax, ebx, ecx, edx } = self.read.cpuid2(self.leaf, self.current as u32);
        let res = CpuIdResult { eax, ebx, ecx, edx };
        let cp = '''), (L, '''            CacheType::Null => None,
            CacheType::Reserved => None,
            _ => {
                self.current += 1;
                Some(cp)
            }''', '''            CacheType::Null | CacheType::Reserved => None,
            _ => {
                self.current = self.current.wrapping_add(1);
                Some(cp)
            }''')]),
"state-loop": (["C11", "C07"], [(L, '''        if self.level >= 31 {
            return None;
        }
        self.level += 1;

        let bit = 1 << self.level;''', '''        while self.level < 31 {
        self.level += 1;
        let bit = 1 << self.level;'''), (L, '''                ecx: res.ecx,
            });
        }

        self.next()
''', '''                ecx: res.ecx,
            });
        }
        }
        None
''')]),
"family-match": (["C15"], [(L, '''        let just_use_base = (self.vendor == Vendor::Amd && base_family_id < 0xf)
            || (self.vendor == Vendor::Intel && base_family_id != 0xf);

        if just_use_base {
            base_family_id
        } else {
            // At most 0xf + 0xff, which does not fit the result.
            base_family_id.saturating_add(extended_family_id)
        }''', '''        match (self.vendor, base_family_id) {
            (Vendor::Amd | Vendor::Intel, b) if b < 0xf => b,
            (_, b) => b.saturating_add(extended_family_id),
        }''')]),
"brand-position": (["C14"], [(X, '''        let slice = slice.split(|&x| x == 0).next().unwrap();''', '''        let end = slice.iter().position(|&x| x == 0).unwrap_or(slice.len());
        let slice = &slice[..end];''')]),
"brand-loop": (["C14", "C07"], [(X, '''        let slice = slice.split(|&x| x == 0).next().unwrap();''', '''        let mut end = 0;
        while end < slice.len() && slice[end] != 0 {
            end += 1;
        }
        let slice = &slice[..end];''')]),
"flag-macro": (["C05", "C06"], [(L, '''            self.$flags.contains($flag)
''', '''            self.$flags.bits() & $flag.bits() == $flag.bits()
''')]),
"topo-field": (["C10", "C07"], [(L, '''        let level = self.level as u32;
        let res = if self.is_v2 {
            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO_V2, level)
        } else {
            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, level)
        };
        self.level += 1;
''', '''        let n = self.level;
        self.level = n + 1;
        let leaf = if self.is_v2 { EAX_EXTENDED_TOPOLOGY_INFO_V2 } else { EAX_EXTENDED_TOPOLOGY_INFO };
        let res = self.read.cpuid2(leaf, n as u32);
''')]),
"vendor-registers": (["C01", "C14", "C07"], [(L, '''        let vi = VendorInfo {
            ebx: res.ebx,
            ecx: res.ecx,
            edx: res.edx,
        };

        match vi.as_str() {
            "GenuineIntel" => Vendor::Intel,
            "AuthenticAMD" | "HygonGenuine" => Vendor::Amd,
            _ => Vendor::Unknown(res.ebx, res.ecx, res.edx),
        }''', '''        let word = |s: &[u8; 4]| u32::from_le_bytes(*s);
        let is = |a, b, c| (res.ebx, res.edx, res.ecx) == (word(a), word(b), word(c));
        if is(b"Genu", b"ineI", b"ntel") {
            Vendor::Intel
        } else if is(b"Auth", b"enti", b"cAMD") || is(b"Hygo", b"nGen", b"uine") {
            Vendor::Amd
        } else {
            Vendor::Unknown(res.ebx, res.ecx, res.edx)
        }''')]),
"brand-array": (["C14", "C01", "C02"], [(L, '''            Some(ProcessorBrandString::new([
                self.read.cpuid1(EAX_EXTENDED_BRAND_STRING),
                self.read.cpuid1(EAX_EXTENDED_BRAND_STRING + 1),
                self.read.cpuid1(EAX_EXTENDED_BRAND_STRING + 2),
            ]))''', '''            Some(ProcessorBrandString::new(
                [0, 1, 2].map(|i| self.read.cpuid1(EAX_EXTENDED_BRAND_STRING + i)),
            ))''')]),
"brand-trim": (["C14", "C07"], [(X, '''            .trim()
''', '''            .trim_start()
            .trim_end()
''')]),
"brand-cstr": (["C14"], [(X, '''        let slice = slice.split(|&x| x == 0).next().unwrap();
        str::from_utf8(slice)
            .unwrap_or("Invalid Processor Brand String")
            .trim()''', '''        let slice = match core::ffi::CStr::from_bytes_until_nul(slice) {
            Ok(c) => c.to_bytes(),
            Err(_) => slice,
        };
        match str::from_utf8(slice) {
            Ok(s) => s.trim(),
            Err(_) => "Invalid Processor Brand String",
        }''')]),
"tsc-checked": (["C15", "C07"], [(L, '''        if self.nominal_frequency() == 0 || self.numerator() == 0 || self.denominator() == 0 {
            return None;
        }

        Some(self.nominal_frequency() as u64 * self.numerator() as u64 / self.denominator() as u64)''', '''        if self.nominal_frequency() == 0 || self.numerator() == 0 {
            return None;
        }
        let product = u64::from(self.nominal_frequency()) * u64::from(self.numerator());
        product.checked_div(u64::from(self.denominator()))''')]),
"cachetype-table": (["C16", "C09", "C07"], [(L, '''        let typ = get_bits(self.eax, 0, 4) as u8;
        match typ {
            0 => CacheType::Null,
            1 => CacheType::Data,
            2 => CacheType::Instruction,
            3 => CacheType::Unified,
            _ => CacheType::Reserved,
        }''', '''        let typ = self.eax & 0x1f;
        if typ > 3 {
            return CacheType::Reserved;
        }
        if typ & 2 == 0 {
            if typ & 1 == 0 { CacheType::Null } else { CacheType::Data }
        } else if typ & 1 == 0 {
            CacheType::Instruction
        } else {
            CacheType::Unified
        }''')]),
"l3mon-then": (["C18", "C02"], [(L, '''        if self.has_l3_monitoring() {
            let res = self.read.cpuid2(EAX_RDT_MONITORING, 1);
            Some(L3MonitoringInfo {
                ebx: res.ebx,
                ecx: res.ecx,
                edx: res.edx,
            })
        } else {
            None
        }''', '''        self.has_l3_monitoring()
            .then(|| self.read.cpuid2(EAX_RDT_MONITORING, 1))
            .map(|CpuIdResult { ebx, ecx, edx, .. }| L3MonitoringInfo { ebx, ecx, edx })''')]),
"epc-mask": (["C15", "C12"], [(L, '''        let lower = (get_bits(self.eax, 12, 31) << 12) as u64;
        let upper = (get_bits(self.ebx, 0, 19) as u64) << 32;
        lower | upper
    }

    /// Size''', '''        (u64::from(self.eax) + (u64::from(self.ebx) << 32)) & 0x000f_ffff_ffff_f000
    }

    /// Size''')]),
"hv-text": (["C17", "C07"], [(L, '''        match (self.res.ebx, self.res.ecx, self.res.edx) {
            // "VMwareVMware" (0x56 => V, 0x4d => M, ...)
            (0x61774d56, 0x4d566572, 0x65726177) => Hypervisor::VMware,''', '''        let mut id = [0u8; 12];
        for (to, from) in id.chunks_exact_mut(4).zip([self.res.ebx, self.res.ecx, self.res.edx].iter()) {
            to.copy_from_slice(&from.to_le_bytes());
        }
        if &id == b"VMwareVMware" {
            return Hypervisor::VMware;
        }
        match (self.res.ebx, self.res.ecx, self.res.edx) {''')]),
"hv-freq": (["C17", "C02"], [(L, '''        if self.res.eax >= 0x40000010 {
            let virt_tinfo = self.read.cpuid2(0x40000010, 0);
            Some(virt_tinfo.eax)
        } else {
            None
        }''', '''        (0x40000010..=self.res.eax).next().map(|leaf| self.read.cpuid1(leaf).eax)''')]),
"soc-brand": (["C13", "C14", "C07"], [(L, '''            let r1 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 1);
            let r2 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 2);
            let r3 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 3);
            Some(SoCVendorBrand { data: [r1, r2, r3] })''', '''            let mut data = [CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }; 3];
            for (n, d) in data.iter_mut().enumerate() {
                *d = self.read.cpuid2(EAX_SOC_VENDOR_INFO, n as u32 + 1);
            }
            Some(SoCVendorBrand { data })''')]),
"attr-fold": (["C13", "C07"], [(L, '''        if self.current >= self.count {
            return None;
        }
        self.current += 1;
        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))''', '''        let next = self.current.checked_add(1).filter(|n| *n <= self.count)?;
        self.current = next;
        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, next))''')]),
"cacheinfo-index": (["C08", "C07"], [(L, '''            for cache_info in CACHE_INFO_TABLE.iter() {
                if cache_info.num == byte {
                    return Some(*cache_info);
                }
            }
''', '''            for i in 0..CACHE_INFO_TABLE.len() {
                if CACHE_INFO_TABLE[i].num == byte {
                    return Some(CACHE_INFO_TABLE[i]);
                }
            }
''')]),
"cacheinfo-helper": (["C08", "C07"], [(L, '''        let byte = match byte_index {
            0 => reg,
            1 => reg >> 8,
            2 => reg >> 16,
            3 => reg >> 24,
            _ => unreachable!(),
        } as u8;
''', '''        let byte = Self::byte_of(reg, byte_index as usize);
'''), (L, '''impl Debug for CacheInfoIter {
''', '''impl CacheInfoIter {
    fn byte_of(reg: u32, i: usize) -> u8 {
        reg.to_le_bytes()[i]
    }
}

impl Debug for CacheInfoIter {
''')]),
"dat-filter": (["C12", "C07", "C20"], [(L, '''            // A sub-leaf index is also invalid if EDX[4:0] returns 0.
            if get_bits(res.edx, 0, 4) == 0 {
                // Valid sub-leaves do not need to be contiguous or in any particular order.
                // A valid sub-leaf may be in a higher input ECX value than an invalid sub-leaf
                // or than a valid sub-leaf of a higher or lower-level struc-ture
                continue;
            }

            return Some(DatInfo {
                _eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
                edx: res.edx,
            });
''', '''            if let Some(info) = DatInfo::from_result(res) {
                return Some(info);
            }
'''), (L, '''impl<R: CpuIdReader> Debug for DatIter<R> {
''', '''impl DatInfo {
    fn from_result(r: CpuIdResult) -> Option<Self> {
        let valid = r.edx & 0x1f != 0;
        valid.then_some(DatInfo {
            _eax: r.eax,
            ebx: r.ebx,
            ecx: r.ecx,
            edx: r.edx,
        })
    }
}

impl<R: CpuIdReader> Debug for DatIter<R> {
''')]),
"sgx-early": (["C12", "C02"], [(L, '''        match get_bits(res.eax, 0, 3) {
            0b0001 => Some(SgxSectionInfo::Epc(EpcSection {
                eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
                edx: res.edx,
            })),
            _ => None,
        }
''', '''        let CpuIdResult { eax, ebx, ecx, edx } = res;
        if eax & 0xf != 1 {
            return None;
        }
        Some(SgxSectionInfo::Epc(EpcSection { eax, ebx, ecx, edx }))
''')]),
"vendor-chain": (["C01", "C14", "C17"], [(L, '''        match vi.as_str() {
            "GenuineIntel" => Vendor::Intel,
            "AuthenticAMD" | "HygonGenuine" => Vendor::Amd,
            _ => Vendor::Unknown(res.ebx, res.ecx, res.edx),
        }
''', '''        let name = vi.as_str();
        if name == "GenuineIntel" {
            return Vendor::Intel;
        }
        if ["AuthenticAMD", "HygonGenuine"].contains(&name) {
            return Vendor::Amd;
        }
        Vendor::Unknown(res.ebx, res.ecx, res.edx)
''')]),
"gate-helper": (["C01", "C02", "C03"], [(L, '''        if self.leaf_is_supported(EAX_MONITOR_MWAIT_INFO) {
            let res = self.read.cpuid1(EAX_MONITOR_MWAIT_INFO);
            Some(MonitorMwaitInfo {
                eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
                edx: res.edx,
            })
        } else {
            None
        }
    }
''', '''        self.query(EAX_MONITOR_MWAIT_INFO, |res| MonitorMwaitInfo {
            eax: res.eax,
            ebx: res.ebx,
            ecx: res.ecx,
            edx: res.edx,
        })
    }

    fn query<T>(&self, leaf: u32, make: impl FnOnce(CpuIdResult) -> T) -> Option<T> {
        self.leaf_is_supported(leaf)
            .then(|| make(self.read.cpuid1(leaf)))
    }
'''), (L, '''        let res = self.read.cpuid1(EAX_RDT_ALLOCATION);

        if self.leaf_is_supported(EAX_RDT_ALLOCATION) {
            Some(RdtAllocationInfo {
                read: self.read.clone(),
                ebx: res.ebx,
            })
        } else {
            None
        }
''', '''        self.query(EAX_RDT_ALLOCATION, |res| RdtAllocationInfo {
            read: self.read.clone(),
            ebx: res.ebx,
        })
''')]),
"hv-match": (["C01", "C17", "C07"], [(L, '''        self.get_feature_info()
            .filter(|fi| fi.has_hypervisor())
            .and_then(|_| {
                let res = self.read.cpuid1(EAX_HYPERVISOR_INFO);
                if res.eax > 0 {
                    Some(HypervisorInfo {
                        read: self.read.clone(),
                        res,
                    })
                } else {
                    None
                }
            })
''', '''        if !self.get_feature_info()?.has_hypervisor() {
            return None;
        }
        match self.read.cpuid1(EAX_HYPERVISOR_INFO) {
            CpuIdResult { eax: 0, .. } => None,
            res => Some(HypervisorInfo {
                read: self.read.clone(),
                res,
            }),
        }
''')]),
"capacity-debug": (["C20"], [(X, '''            .field("physical_address_bits", &self.physical_address_bits())
            .field("linear_address_bits", &self.linear_address_bits())
            .field(
                "guest_physical_address_bits",
                &self.guest_physical_address_bits(),
            )
            .field("has_cl_zero"''', '''            .field("physical_address_bits", &(self.eax as u8))
            .field("linear_address_bits", &(get_bits(self.eax, 8, 15) as u8))
            .field(
                "guest_physical_address_bits",
                &{
                    let b: [u8; 4] = self.eax.to_le_bytes();
                    b[2]
                },
            )
            .field("has_cl_zero"''')]),
"xstate-mask": (["C11", "C07", "C02"], [(L, '''        let bit = 1 << self.level;
        if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {
            let res''', '''        let supported = self.supported_xcr0 | self.supported_xss;
        if (supported >> self.level) & 1 == 1 {
            let res''')]),
"xstate-zeros": (["C11", "C07"], [(L, '''        if self.level >= 31 {
            return None;
        }
        self.level += 1;

        let bit = 1 << self.level;
        if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {
            let res = self.read.cpuid2(EAX_EXTENDED_STATE_INFO, self.level);
            return Some(ExtendedState {
                subleaf: self.level,
                eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
            });
        }

        self.next()
''', '''        let left = match self.level {
            0..=30 => (self.supported_xcr0 | self.supported_xss) >> (self.level + 1),
            _ => 0,
        };
        if left == 0 {
            self.level = 31;
            return None;
        }
        self.level += left.trailing_zeros() + 1;
        let res = self.read.cpuid2(EAX_EXTENDED_STATE_INFO, self.level);
        Some(ExtendedState {
            subleaf: self.level,
            eax: res.eax,
            ebx: res.ebx,
            ecx: res.ecx,
        })
''')]),
"attr-range": (["C13", "C07"], [(L, '''        if self.current >= self.count {
            return None;
        }
        self.current += 1;
        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))
''', '''        let next = self.current.checked_add(1).filter(|n| *n <= self.count)?;
        self.current = next;
        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, next))
''')]),
"topo-rename": (["C10"], [(L, "RENAME:ExtendedTopologyIter", "")]),
"assoc-table": (["C16", "C07"], [(X, '''            0x2 => Associativity::NWay(2),
            0x4 => Associativity::NWay(4),
            0x5 => Associativity::NWay(6), // Reserved on Intel
            0x6 => Associativity::NWay(8),
            // 0x7 => SDM states: "See CPUID leaf 04H, sub-leaf 2"
            0x8 => Associativity::NWay(16),
            0x9 => Associativity::Unknown, // Intel: Reserved, AMD: Value for all fields should be determined from Fn8000_001D
            0xa => Associativity::NWay(32),
            0xb => Associativity::NWay(48),
            0xc => Associativity::NWay(64),
            0xd => Associativity::NWay(96),
            0xe => Associativity::NWay(128),
            0xF => Associativity::FullyAssociative,
            _ => Associativity::Unknown,''', '''            0xF => Associativity::FullyAssociative,
            n => {
                const WAYS: [(u8, u8); 10] = [(2, 2), (4, 4), (5, 6), (6, 8), (8, 16), (10, 32), (11, 48), (12, 64), (13, 96), (14, 128)];
                for (e, w) in WAYS.iter() {
                    if *e == n {
                        return Associativity::NWay(*w);
                    }
                }
                Associativity::Unknown
            }''')]),
"debug-args": (["C20"], [(L, '''            .field("denominator", &self.denominator())
            .field("numerator", &self.numerator())
''', '''            .field("denominator", &format_args!("{}", self.denominator()))
            .field("numerator", &u64::from(self.numerator()))
''')]),
"debug-write": (["C20"], [(L, '''        f.debug_struct("DirectCacheAccessInfo")
            .field("dca_cap_value", &self.get_dca_cap_value())
            .finish()
''', '''        write!(f, "DirectCacheAccessInfo {{ dca_cap_value: {:?} }}", self.get_dca_cap_value())
''')]),
}

def main():
    for i in sys.argv[1:] or list(R):
        props, edits = R[i]
        ok = True
        for f, a, b in edits:
            s = open(f).read()
            if a.startswith("RENAME:"):
                t = s.replace("self.level,\n", "self.level,\n")
                # rename the private field `level` of the topology iterator
                import re
                t = re.sub(r"(pub struct ExtendedTopologyIter<R: CpuIdReader> \{.*?)\blevel: u64", r"\1sub_leaf: u64", s, flags=re.S, count=1)
                k = t.index("Iterator for ExtendedTopologyIter"); e = t.index("\n}\n", k)
                t = t[:k] + t[k:e].replace("self.level", "self.sub_leaf") + t[e:]
                t = re.sub(r"(ExtendedTopologyIter \{[^}]*?)\blevel: 0", r"\1sub_leaf: 0", t)
            else:
                if s.count(a) != 1:
                    print(i, "matches", s.count(a)); ok = False; break
                t = s.replace(a, b)
            open(f, "w").write(t)
        if ok:
            c = subprocess.run("cd /repo && CARGO_NET_OFFLINE=true cargo check --offline --target-dir /tmp/w/rt 2>&1 | grep -A6 '^error'", shell=True, text=True, stdout=subprocess.PIPE)
            if c.stdout: print(i, "does not compile", c.stdout[:500])
            else:
                for p in props:
                    t0 = time.time()
                    r = subprocess.run(["python3", "/verif/check.py", p], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    print(i, p, "rc", r.returncode, round(time.time() - t0), "s", "" if r.returncode == 0 else "!!!!!!", flush=True)
                    for l in r.stdout.splitlines():
                        if l.startswith(("VIOL", "UNDEC", "NOTE")): print("   ", l[:260])
        subprocess.run("git -C /repo checkout -- .", shell=True)
main()
