//! C17: hypervisor identification and timing.
use crate::core_::*;
use crate::*;
use raw_cpuid::Hypervisor;

/// Signature in EBX, ECX, EDX.
fn sig(r: &CpuIdResult, s: &[u8; 12]) -> bool {
    r.ebx == w(s, 0) && r.ecx == w(s, 4) && r.edx == w(s, 8)
}

fn identity(r: &CpuIdResult) -> Hypervisor {
    if sig(r, b"VMwareVMware") {
        Hypervisor::VMware
    } else if sig(r, b"XenVMMXenVMM") {
        Hypervisor::Xen
    } else if sig(r, b"Microsoft Hv") {
        Hypervisor::HyperV
    } else if sig(r, b"KVMKVMKVM\0\0\0") {
        Hypervisor::KVM
    } else if sig(r, b"TCGTCGTCGTCG") {
        Hypervisor::QEMU
    } else if sig(r, b"bhyve bhyve ") || sig(r, b"BHyVE BHyVE ") {
        Hypervisor::Bhyve
    } else if sig(r, b"QNXQVMBSQG\0\0") {
        Hypervisor::QNX
    } else if sig(r, b"ACRNACRNACRN") {
        Hypervisor::ACRN
    } else {
        Hypervisor::Unknown(r.ebx, r.ecx, r.edx)
    }
}

contracts! { REG;
    fn c17_identity() { with_answer!([L1, (0x4000_0000, 0)], m, h = get_hypervisor_info, {
        let r = m.get(0x4000_0000, 0);
        let id = h.identify();
        ck!(id == identity(&r), "HypervisorInfo::identify names the 12-byte signature in EBX, ECX, EDX");
        reach!(id == Hypervisor::QNX, "QNX");
        reach!(id == Hypervisor::Bhyve, "bhyve");
        reach!(id == Hypervisor::Unknown(1, 2, 3), "unknown");
    }); }
    fn c17_frequencies() { with_answer!([L1, (0x4000_0000, 0), (0x4000_0010, 0)], m, h = get_hypervisor_info, {
        let (r, t) = (m.get(0x4000_0000, 0), m.get(0x4000_0010, 0));
        let (tsc, apic) = if r.eax >= 0x4000_0010 { (Some(t.eax), Some(t.ebx)) } else { (None, None) };
        ck!(h.tsc_frequency() == tsc, "HypervisorInfo::tsc_frequency is EAX of leaf 0x40000010, iff within the maximum leaf");
        ck!(h.apic_frequency() == apic, "HypervisorInfo::apic_frequency is EBX of leaf 0x40000010, iff within the maximum leaf");
        reach!(r.eax == 0x4000_0010, "at the limit");
        reach!(r.eax == 0x4000_000f, "below the limit");
    }); }
}
