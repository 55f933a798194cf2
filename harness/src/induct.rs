//! The iterators, from every state (needs the hooks, `--cfg verif`): with the
//! walks from the first sub-leaf in `iters.rs` as base case, these steps lift the
//! contracts to walks of any length.
//!
//! A state is identified by what it does: it is *at* sub-leaf n if its next read
//! is sub-leaf n. The step contracts say: next() at n makes one read, of sub-leaf
//! n; the answer is an item iff that sub-leaf is valid; the item carries its
//! registers; after an item the iterator is at n + 1.
use crate::core_::*;
use crate::desc::byte_at;
use crate::iters::*;
use crate::sdm::*;
use crate::xstate::next_component;
use crate::*;
use core::cell::Cell;
use raw_cpuid::{verif, *};

/// Answers the first read with `r`, the others with `r2`, and records the reads.
#[derive(Clone)]
pub struct Recorder<'a> {
    pub r: CpuIdResult,
    pub r2: CpuIdResult,
    pub n: &'a Cell<u32>,
    pub first: &'a Cell<(u32, u32)>,
    pub last: &'a Cell<(u32, u32)>,
}
impl CpuIdReader for Recorder<'_> {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let k = self.n.get();
        self.n.set(k + 1);
        self.last.set((eax, ecx));
        if k == 0 {
            self.first.set((eax, ecx));
            self.r
        } else {
            self.r2
        }
    }
}
macro_rules! recorder {
    ($rec:ident, $n:ident, $first:ident, $last:ident) => {
        let ($n, $first, $last) = (Cell::new(0), Cell::new((0, 0)), Cell::new((0, 0)));
        let $rec = Recorder { r: any_res(), r2: any_res(), n: &$n, first: &$first, last: &$last };
    };
}

/// Sub-leaf counters; the first two belong to the base case.
fn any_counter() -> u32 {
    let c = any_u32();
    assume(c >= 2);
    c
}

macro_rules! step {
    ($c:expr, $mk:expr, $leaf:expr, $valid:ident, $same:ident, $what:literal) => {{
        recorder!(rec, n, first, last);
        let (r, r2) = (rec.r, rec.r2);
        let mut i = $mk(rec, $c);
        let item = i.next();
        // How the counter is represented is open, so close to the end of its range
        // the state may be one past the last sub-leaf.
        if $c >= u32::MAX - 1 && item.is_none() && n.get() == 0 {
            return;
        }
        ck!(n.get() == 1 && first.get().0 == $leaf, concat!($what, ": one step reads one sub-leaf of the leaf"));
        let at = first.get().1;
        match item {
            Some(x) => {
                ck!($valid(&r), concat!($what, ": an item is a valid sub-leaf (any state)"));
                $same(&x, &r);
                let item = i.next();
                if at == u32::MAX {
                    ck!(item.is_none() && n.get() == 1, concat!($what, ": nothing comes after the last possible sub-leaf"));
                } else {
                    ck!(last.get() == ($leaf, at + 1) && n.get() == 2, concat!($what, ": after an item comes the next sub-leaf (any state)"));
                    ck!(item.is_some() == $valid(&r2), concat!($what, ": the next sub-leaf is an item iff it is valid (any state)"));
                    if let Some(x) = item { $same(&x, &r2); }
                }
                reach!(at == 1000, concat!($what, ": far into a walk"));
            }
            None => {
                ck!(!$valid(&r), concat!($what, ": the walk ends at invalid sub-leaves only (any state)"));
                reach!(at == 1000, concat!($what, ": the end of a long walk"));
            }
        }
    }};
}

contracts! { REG;
    fn c09_step_intel() { let c = any_counter(); step!(c, |r, c| verif::cache_parameters_iter(r, 4, c), 4, cache_valid, cache_same, "cache parameters"); }
    fn c09_step_amd() {
        let c = any_counter();
        step!(c, |r, c| verif::cache_parameters_iter(r, 0x8000_001D, c), 0x8000_001D, cache_valid, cache_same, "cache parameters (AMD)");
    }
    fn c10_step() { let c = any_counter(); step!(c, |r, c| verif::topology_iter(r, false, c), 0xB, level_valid, level_same, "topology"); }
    fn c10_step_v2() { let c = any_counter(); step!(c, |r, c| verif::topology_iter(r, true, c), 0x1F, level_valid, level_same, "topology v2"); }
    fn c10_step_cpu_topology() {
        let c = any_counter();
        step!(c, |r, c| verif::cpu_topology_iter(r, c), 0x8000_0026, cpu_level_valid, cpu_level_same, "cpu topology");
    }
    fn c12_step_epc() { let c = any_counter(); step!(c, |r, c| verif::sgx_iter(r, c), 0x12, epc_valid, epc_same, "EPC sections"); }
    fn c13_step_attributes() {
        // The state before sub-leaf `at`, up to sub-leaf `max`.
        let (at, max) = (any_u32(), any_u32());
        assume(at >= 4);
        recorder!(rec, n, first, last);
        let (r, r2) = (rec.r, rec.r2);
        let mut i = verif::soc_attributes_iter(rec, at - 1, max);
        match i.next() {
            Some(x) => {
                ck!(n.get() == 1 && first.get() == (0x17, at), "SoC attributes: one step reads the one sub-leaf (any state)");
                ck!(at <= max, "SoC attributes: nothing beyond the last sub-leaf (any state)");
                ck!(x == r, "SoC attributes: the registers of the sub-leaf (any state)");
                match i.next() {
                    Some(x) => ck!(at < max && last.get() == (0x17, at + 1) && x == r2, "SoC attributes: after an item comes the next sub-leaf (any state)"),
                    None => ck!(at >= max, "SoC attributes: no sub-leaf is missing (any state)"),
                }
                reach!(at == 1000, "SoC attributes: far into a walk");
            }
            None => {
                ck!(at > max, "SoC attributes: no sub-leaf is missing (any state)");
                reach!(at == 1000, "SoC attributes: the end of a long walk");
            }
        }
    }
}

/// XSAVE components: next() from the state after component `from`.
fn component_step(from: u32) {
    let (xcr0, xss) = (any_u32(), any_u32());
    let set = xcr0 | xss;
    recorder!(rec, n, first, last);
    let r = rec.r;
    let mut i = verif::state_iter(rec.clone(), from, xcr0, xss);
    let want = next_component(set, from);
    match i.next() {
        Some(s) => {
            ck!(s.subleaf == want, "state component: the next component set in XCR0 or IA32_XSS (any state)");
            ck!(n.get() == 1 && first.get() == (0xD, want), "state component: one read, of its sub-leaf (any state)");
            ck!(s.size() == r.eax && s.offset() == r.ebx && s.is_in_ia32_xss() == bit(r.ecx, 0)
                && s.is_compacted_format() == bit(r.ecx, 1), "state component: registers of its sub-leaf (any state)");
            ck!(verif::state_iter_same(&i, &verif::state_iter(rec, want, xcr0, xss)),
                "state component: the state after a component depends on its number only");
            reach!(s.subleaf == 31, "component 31");
        }
        None => {
            ck!(want == 0, "state component: no set component is missing (any state)");
            reach!(true, "the end");
        }
    }
}

/// Leaf 2 (loop contract on the table scan): next() from any state, for an
/// arbitrary table entry.
fn descriptor_step() {
    let (r, from, w) = (any_res(), any_u32(), any_u32() as usize);
    assume(from >= 1 && from <= 16 && w < CACHE_INFO_TABLE.len());
    unsafe { verif::ENTRY = w };
    let known = CACHE_INFO_TABLE[w].num;
    let mut i = verif::cache_info_iter(r, from);
    let item = i.next();
    // The position after which the iterator now is.
    let mut at = 16;
    let mut k = from;
    while k < 16 {
        if item.is_some() && i == verif::cache_info_iter(r, k + 1) {
            at = k;
        }
        k += 1;
    }
    match item {
        Some(ci) => {
            ck!(at < 16, "descriptor: the state after a descriptor depends on its position only");
            ck!(ci.num != 0 && ci.num == byte_at(&r, at), "descriptor: the reported number is the register byte");
            ck!(ci.num == 0xc3 || descriptor(ci.num) == Some(kind(ci.typ)), "descriptor: documented, with the documented type (any state)");
            reach!(at == 15 && from == 1, "a descriptor in the last byte");
        }
        None => {
            ck!(i == verif::cache_info_iter(r, 16), "descriptor: the end is final (any state)");
            reach!(from == 1, "no descriptors");
        }
    }
    let mut k = from;
    while k < at {
        ck!(known == 0 || byte_at(&r, k) != known, "descriptor: no descriptor of the table is passed over (any state)");
        k += 1;
    }
}

/// Leaf 0x18 (loop contract): next() from any state, for an arbitrary sub-leaf.
#[derive(Clone)]
pub struct AnySubleaf {
    j: u32,
    r: CpuIdResult,
}
impl CpuIdReader for AnySubleaf {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        ck!(eax == 0x18, "address translation: reads leaf 0x18 only");
        if ecx == self.j { self.r } else { any_res() }
    }
}
fn dat_step() {
    let (j, r, count) = (any_u32(), any_res(), any_u32());
    let from = any_u32();
    assume(from <= count);
    let valid = dat_valid(&r);
    unsafe { verif::SUBLEAF = (j, valid) };
    let reader = AnySubleaf { j, r };
    let mut i = verif::dat_iter(reader.clone(), from as u64, count);
    let item = i.next();
    let at_j = verif::dat_iter_same(&i, &verif::dat_iter(reader.clone(), j as u64 + 1, count));
    let position = verif::dat_position(&i);
    ck!(position > from as u64 && position <= count as u64 + 1, "address translation: every step advances, within 0..=max");
    match item {
        Some(x) => {
            if at_j {
                ck!(valid, "address translation: an item is a valid sub-leaf (any state)");
                dat_same(&x, &r);
                reach!(from == 0 && j == u32::MAX, "the last sub-leaf");
            }
            ck!(!(valid && j >= from && (j as u64 + 1) < position), "address translation: no valid sub-leaf is passed over (any state)");
        }
        None => {
            ck!(position == count as u64 + 1, "address translation: the walk ends after the last sub-leaf only");
            ck!(!(valid && j >= from && j <= count), "address translation: no valid sub-leaf is missing (any state)");
            ck!(i.next().is_none(), "address translation: the end is final (any state)");
            reach!(from == 0, "nothing");
        }
    }
}

macro_rules! steps {
    ($reg:ident $f:ident $u:literal; $($n:ident $from:literal)*) => {
        contracts! { $reg; $( #[unwind($u)] fn $n() { $f($from); } )* }
    };
}
steps! { REG_STATE component_step 34;
    c11_step_01 1 c11_step_02 2 c11_step_03 3 c11_step_04 4 c11_step_05 5 c11_step_06 6 c11_step_07 7 c11_step_08 8
    c11_step_09 9 c11_step_10 10 c11_step_11 11 c11_step_12 12 c11_step_13 13 c11_step_14 14 c11_step_15 15 c11_step_16 16
    c11_step_17 17 c11_step_18 18 c11_step_19 19 c11_step_20 20 c11_step_21 21 c11_step_22 22 c11_step_23 23 c11_step_24 24
    c11_step_25 25 c11_step_26 26 c11_step_27 27 c11_step_28 28 c11_step_29 29 c11_step_30 30
}
contracts! { REG_LOOPS;
    #[unwind(18)]
    fn c07_loop_cache_info() {
        let (r, from, w) = (any_res(), any_u32(), any_u32() as usize);
        assume(from >= 1 && from <= 16 && w < CACHE_INFO_TABLE.len());
        unsafe { verif::ENTRY = w };
        let mut i = verif::cache_info_iter(r, from);
        if let Some(x) = i.next() { let _ = x; reach!(from == 1, "a descriptor"); }
    }
    fn c07_loop_dat() {
        let (r, from, count) = (any_res(), any_u32(), any_u32());
        unsafe { verif::SUBLEAF = (any_u32(), any_u32() & 1 == 0) };
        let (j, valid) = unsafe { verif::SUBLEAF };
        assume(valid == dat_valid(&r));
        let mut i = verif::dat_iter(AnySubleaf { j, r }, from as u64, count);
        if i.next().is_some() { reach!(count == u32::MAX, "an item"); }
    }
    #[unwind(18)]
    fn c08_loop_step() { descriptor_step(); }
    fn c12_loop_step() { dat_step(); }
}

macro_rules! total {
    ($mk:expr) => {{
        recorder!(rec, n, first, last);
        let mut i = $mk(rec);
        if i.next().is_some() { reach!(true, "two steps"); let _ = i.next(); }
        let _ = (n.get(), first.get(), last.get());
    }};
}

// The hooks construct the states the public API starts from. If one of these
// does not hold, the driver does not use the contracts that build on it.
contracts! { REG_ANCHOR;
    fn c08_anchor() { with_answer!([(2, 0)], m, i = get_cache_info, {
        ck!(i == verif::cache_info_iter(m.get(2, 0), 1), "hook anchor: leaf 2");
    }); }
    fn c11_anchor() { with_answer!([(0xD, 0), (0xD, 1)], m, f = get_extended_state_info, {
        ck!(verif::state_iter_same(&f.iter(), &verif::state_iter(m.clone(), 1, m.get(0xD, 0).eax, m.get(0xD, 1).ecx)), "hook anchor: leaf 0xD");
    }); }
    fn c12_anchor() { with_answer!([(0x18, 0)], m, i = get_deterministic_address_translation_info, {
        ck!(verif::dat_iter_same(&i, &verif::dat_iter(m.clone(), 0, m.get(0x18, 0).eax)), "hook anchor: leaf 0x18");
    }); }
    fn c13_anchor() { with_answer!([(0x17, 0)], m, f = get_soc_vendor_info, {
        if let Some(i) = f.get_vendor_attributes() {
            ck!(verif::soc_attributes_iter_same(&i, &verif::soc_attributes_iter(m.clone(), 3, m.get(0x17, 0).eax)), "hook anchor: leaf 0x17");
        }
    }); }
}

// C07: no step panics or overflows, in any state.
contracts! { REG_TOTAL;
    fn c07_step_cache_parameters() { let c = any_u32(); total!(|r| verif::cache_parameters_iter(r, 4, c)); }
    fn c07_step_topology() { let c = any_u32(); total!(|r| verif::topology_iter(r, c & 1 == 0, c)); }
    fn c07_step_cpu_topology() { let c = any_u32(); total!(|r| verif::cpu_topology_iter(r, c)); }
    fn c07_step_epc() { let c = any_u32(); total!(|r| verif::sgx_iter(r, c)); }
    fn c07_step_attributes() { let c = any_u32(); let max = any_u32(); total!(|r| verif::soc_attributes_iter(r, c, max)); }
    #[unwind(34)]
    fn c07_step_state() {
        let level = any_u32();
        assume(level >= 1 && level <= 31);
        let (a, b) = (any_u32(), any_u32());
        recorder!(rec, n, first, last);
        let mut i = verif::state_iter(rec, level, a, b);
        if i.next().is_some() { reach!(true, "a component"); }
        let _ = (n.get(), first.get(), last.get());
    }
}
