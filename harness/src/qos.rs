//! C18: RDT / PQoS sub-features are available exactly when their flag is set, and
//! then come from their own sub-leaf.
use crate::core_::*;
use crate::*;

contracts! { REG;
    fn c18_rdt_monitoring() { with_answer!([(0xF, 0), (0xF, 1)], m, f = get_rdt_monitoring_info, {
        let (r, r1) = (m.get(0xF, 0), m.get(0xF, 1));
        match f.l3_monitoring() {
            Some(l) => {
                reach!(true, "l3 monitoring");
                ck!(bit(r.edx, 1), "l3_monitoring: only if the flag is set");
                ck!(l.conversion_factor() == r1.ebx && l.maximum_rmid_range() == r1.ecx
                    && l.has_occupancy_monitoring() == bit(r1.edx, 0), "l3_monitoring: registers of sub-leaf 1");
            }
            None => { ck!(!bit(r.edx, 1), "l3_monitoring: whenever the flag is set"); reach!(true, "no l3 monitoring"); }
        }
    }); }
    fn c18_rdt_allocation() { with_answer!([(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)], m, f = get_rdt_allocation_info, {
        let r = m.get(0x10, 0);
        let (r1, r2, r3) = (m.get(0x10, 1), m.get(0x10, 2), m.get(0x10, 3));
        match f.l3_cat() {
            Some(l) => {
                reach!(true, "l3 cat");
                ck!(bit(r.ebx, 1), "l3_cat: only if the flag is set");
                ck!(l.isolation_bitmap() == r1.ebx && l.highest_cos() as u32 == bits(r1.edx, 0, 15)
                    && l.has_code_data_prioritization() == bit(r1.ecx, 2), "l3_cat: registers of sub-leaf 1");
            }
            None => ck!(!bit(r.ebx, 1), "l3_cat: whenever the flag is set"),
        }
        match f.l2_cat() {
            Some(l) => {
                reach!(true, "l2 cat");
                ck!(bit(r.ebx, 2), "l2_cat: only if the flag is set");
                ck!(l.isolation_bitmap() == r2.ebx && l.highest_cos() as u32 == bits(r2.edx, 0, 15), "l2_cat: registers of sub-leaf 2");
            }
            None => ck!(!bit(r.ebx, 2), "l2_cat: whenever the flag is set"),
        }
        match f.memory_bandwidth_allocation() {
            Some(l) => {
                reach!(true, "mba");
                ck!(bit(r.ebx, 3), "memory_bandwidth_allocation: only if the flag is set");
                ck!(l.max_hba_throttling() as u32 == bits(r3.eax, 0, 11) + 1 && l.highest_cos() as u32 == bits(r3.edx, 0, 15)
                    && l.has_linear_response_delay() == bit(r3.ecx, 2), "memory_bandwidth_allocation: registers of sub-leaf 3");
            }
            None => ck!(!bit(r.ebx, 3), "memory_bandwidth_allocation: whenever the flag is set"),
        }
    }); }
    fn c18_pqos() { with_answer!([(0x8000_0020, 0), (0x8000_0020, 1), (0x8000_0020, 2), (0x8000_0020, 3), (0x8000_0020, 5)],
        m, f = get_pqos_extended_feature_info, {
        let r = m.get(0x8000_0020, 0);
        let (r1, r2, r3, r5) = (m.get(0x8000_0020, 1), m.get(0x8000_0020, 2), m.get(0x8000_0020, 3), m.get(0x8000_0020, 5));
        match f.get_l3_memory_bandwidth_enforcement_info() {
            Some(l) => {
                reach!(true, "l3mbe");
                ck!(bit(r.ebx, 1), "l3mbe: only if the flag is set");
                ck!(l.bandwidth_length() == r1.eax && l.cos_max() == r1.edx, "l3mbe: registers of sub-leaf 1");
            }
            None => ck!(!bit(r.ebx, 1), "l3mbe: whenever the flag is set"),
        }
        match f.get_l3_slow_memory_bandwidth_enforcement_info() {
            Some(l) => {
                reach!(true, "l3smbe");
                ck!(bit(r.ebx, 2), "l3smbe: only if the flag is set");
                ck!(l.bandwidth_length() == r2.eax && l.cos_max() == r2.edx, "l3smbe: registers of sub-leaf 2");
            }
            None => ck!(!bit(r.ebx, 2), "l3smbe: whenever the flag is set"),
        }
        match f.get_bandwidth_monitoring_event_counters_info() {
            Some(l) => {
                reach!(true, "bmec");
                ck!(bit(r.ebx, 3), "bmec: only if the flag is set");
                ck!(l.number_events() == bits(r3.ebx, 0, 7) && l.has_l3_cache_vic_mon() == bit(r3.ecx, 6), "bmec: registers of sub-leaf 3");
            }
            None => ck!(!bit(r.ebx, 3), "bmec: whenever the flag is set"),
        }
        match f.get_assignable_bandwidth_monitoring_counters_info() {
            Some(l) => {
                reach!(true, "abmc");
                ck!(bit(r.ebx, 5), "abmc: only if the flag is set");
                ck!(l.counter_size() as u32 == bits(r5.eax, 0, 7) && l.max_abmc() as u32 == bits(r5.ebx, 0, 15)
                    && l.has_select_cos() == bit(r5.ecx, 0), "abmc: registers of sub-leaf 5");
            }
            None => ck!(!bit(r.ebx, 5), "abmc: whenever the flag is set"),
        }
    }); }
}
