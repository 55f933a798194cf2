//! C15: quantities computed from several fields.
use crate::core_::*;
use crate::iters::epc_address;
use crate::*;
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};

contracts! { REG;
    fn c15_family() { with_answer!([L1], m, f = get_feature_info, {
        let e = m.get(1, 0).eax;
        let (base, ext) = (bits(e, 8, 11), bits(e, 20, 27));
        let want = if base == 0xf { base + ext } else { base };
        // Intel and AMD agree; for other vendors the extended field is defined with base 0xF only.
        let defined = vendor(&m.get(0, 0)) != V::Other || base == 0xf || ext == 0;
        // The largest family, 0x10e, exceeds the result type.
        ck!(!defined || want > 255 || f.family_id() as u32 == want, "FeatureInfo::family_id == base (+ extended if base == 0xF)");
        reach!(base == 0xf && ext == 0xf0, "the largest representable family");
    }); }
    fn c15_model() { with_answer!([L1], m, f = get_feature_info, {
        let e = m.get(1, 0).eax;
        let (fam, base, ext) = (bits(e, 8, 11), bits(e, 4, 7), bits(e, 16, 19));
        let v = vendor(&m.get(0, 0));
        let use_ext = fam == 0xf || (v == V::Intel && fam == 6);
        let want = if use_ext { (ext << 4) | base } else { base };
        let defined = v != V::Other || fam == 0xf || ext == 0;
        ck!(!defined || f.model_id() as u32 == want, "FeatureInfo::model_id == base (with the extended model for family 0xF, and 6 on Intel)");
        reach!(v == V::Intel && fam == 6, "Intel family 6");
        reach!(v == V::Amd && fam == 6, "AMD family 6");
    }); }
    fn c15_serial() { with_answer!([L1, (3, 0)], m, f = get_processor_serial, {
        let (r1, r) = (m.get(1, 0), m.get(3, 0));
        ck!(f.serial() == (r.ecx as u64 | (r.edx as u64) << 32), "ProcessorSerial::serial == EDX:ECX");
        ck!(f.serial_all() == (r.ecx as u128 | (r.edx as u128) << 32 | (r1.eax as u128) << 64),
            "ProcessorSerial::serial_all == signature:EDX:ECX");
    }); }
    fn c15_tsc_available() { with_answer!([(0x15, 0)], m, f = get_tsc_info, {
        let r = m.get(0x15, 0);
        ck!(f.tsc_frequency().is_some() == (r.eax != 0 && r.ebx != 0 && r.ecx != 0),
            "TscInfo::tsc_frequency is enumerated iff no input is zero");
    }); }
    fn c15_epc() { with_answer!([(7, 0), (0x12, 2)], m, s = get_sgx_info, {
        let r = m.get(0x12, 2);
        if let Some(raw_cpuid::SgxSectionInfo::Epc(e)) = s.iter().next() {
            reach!(true, "EPC section");
            ck!(e.physical_base() == epc_address(r.eax, r.ebx), "EpcSection::physical_base == EBX[19:0]:EAX[31:12]:0");
            ck!(e.size() == epc_address(r.ecx, r.edx), "EpcSection::size == EDX[19:0]:ECX[31:12]:0");
        }
    }); }
    fn c15_secs_attributes() { with_answer!([(7, 0), (0x12, 1)], m, s = get_sgx_info, {
        let r = m.get(0x12, 1);
        ck!(s.secs_attributes() == (r.eax as u64 | (r.ebx as u64) << 32, r.ecx as u64 | (r.edx as u64) << 32),
            "SgxInfo::secs_attributes == (EBX:EAX, EDX:ECX) of sub-leaf 1");
    }); }
    fn c15_capacity() { with_answer!([(0x8000_0008, 0)], m, f = get_processor_capacity_feature_info, {
        let r = m.get(0x8000_0008, 0);
        ck!(f.maximum_logical_processors() as u64 == 1u64 << bits(r.ecx, 12, 15), "maximum_logical_processors == 2^ECX[15:12]");
        ck!(f.perf_tsc_size() as u64 == 40 + 8 * bits(r.ecx, 16, 17) as u64, "perf_tsc_size == 40 + 8 * ECX[17:16]");
    }); }
}

/// A processor that enumerates leaf 0x15 with the given registers.
#[derive(Clone)]
struct Tsc(CpuIdResult);
impl CpuIdReader for Tsc {
    fn cpuid2(&self, eax: u32, _ecx: u32) -> CpuIdResult {
        match eax {
            0 => CpuIdResult { eax: 0x15, ebx: 0x756e_6547, ecx: 0x6c65_746e, edx: 0x4965_6e69 },
            0x15 => self.0,
            _ => CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 },
        }
    }
}

// Nonlinear: decided by an SMT solver over the theory of bit-vectors, where the
// two sides are equal terms, rather than by bit-blasting two dividers.
contracts! { REG_SMT;
    #[solver(z3)] fn c15_smt_tsc_value() {
        let r = any_res();
        if let Some(f) = CpuId::with_cpuid_reader(Tsc(r)).get_tsc_info() {
            if let Some(hz) = f.tsc_frequency() {
                ck!(r.eax != 0 && hz == r.ecx as u64 * r.ebx as u64 / r.eax as u64, "TscInfo::tsc_frequency == ECX * EBX / EAX, in 64 bits");
                reach!(hz > u32::MAX as u64, "more than 32 bits");
            }
        }
    }
}
