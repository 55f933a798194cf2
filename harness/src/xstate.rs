//! C11: the XSAVE state components. These contracts cover the
//! first components of a walk from the public entry point; `induct.rs` has the
//! step from every state, which makes the statement complete.
use crate::core_::*;
use crate::*;
use raw_cpuid::*;

/// The lowest component number above `from` in `set` (0: none).
pub fn next_component(set: u32, from: u32) -> u32 {
    let (mut want, mut k) = (0, 31);
    while k > from {
        if bit(set, k) {
            want = k;
        }
        k -= 1;
    }
    want
}

contracts! { REG;
    #[unwind(34)]
    fn c11_walk() {
        let m = machine([L0, X0, (0xD, 0), (0xD, 1)]);
        let set = m.get(0xD, 0).eax | m.get(0xD, 1).ecx;
        if let Some(f) = open(&m).get_extended_state_info() {
            let mut i = f.iter();
            let first = next_component(set, 1);
            match i.next() {
                Some(s) => {
                    ck!(s.subleaf == first, "state component: the lowest component set in XCR0 or IA32_XSS comes first");
                    reach!(first == 31, "component 31");
                    reach!(first == 2, "component 2");
                }
                None => {
                    ck!(first == 0, "state component: no set component is missing");
                    reach!(true, "no component");
                }
            }
        }
    }
    #[unwind(34)]
    fn c11_registers() {
        let j = any_u32();
        assume(j >= 2 && j <= 31);
        let m = machine([L0, X0, (0xD, 0), (0xD, 1), (0xD, j)]);
        let r = m.get(0xD, j);
        if let Some(f) = open(&m).get_extended_state_info() {
            let mut i = f.iter();
            if let Some(s) = i.next() {
                if s.subleaf == j {
                    reach!(j == 31, "component 31");
                    ck!(s.size() == r.eax, "state component: size is EAX of its sub-leaf");
                    ck!(s.offset() == r.ebx, "state component: offset is EBX of its sub-leaf");
                    ck!(s.is_in_ia32_xss() == bit(r.ecx, 0), "state component: is_in_ia32_xss is ECX[0]");
                    ck!(s.is_in_xcr0() == !bit(r.ecx, 0), "state component: is_in_xcr0 is not ECX[0]");
                    ck!(s.is_compacted_format() == bit(r.ecx, 1), "state component: is_compacted_format is ECX[1]");
                    let loc = if bit(r.ecx, 0) { ExtendedRegisterStateLocation::Ia32Xss } else { ExtendedRegisterStateLocation::Xcr0 };
                    ck!(s.location() == loc, "state component: location follows ECX[0]");
                    ck!(s.register() == ExtendedRegisterType::from(j), "state component: register decodes its number");
                }
            }
        }
    }
    // Bounded stand-in for the step contracts: the second component of a walk.
    #[unwind(34)]
    fn c11_bound_second() {
        let m = machine([L0, X0, (0xD, 0), (0xD, 1)]);
        let set = m.get(0xD, 0).eax | m.get(0xD, 1).ecx;
        if let Some(f) = open(&m).get_extended_state_info() {
            let mut i = f.iter();
            if let Some(a) = i.next() {
                let want = next_component(set, a.subleaf);
                match i.next() {
                    Some(s) => {
                        ck!(s.subleaf == want, "state component: ascending, none set is skipped");
                        reach!(want == 31, "component 31");
                    }
                    None => ck!(want == 0, "state component: no set component is missing"),
                }
            }
        }
    }
}
