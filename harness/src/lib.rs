//! Contract harnesses over the public API of the crate in /repo.
#![allow(deprecated)]
#![cfg_attr(core_text, feature(stmt_expr_attributes, proc_macro_hygiene))]

pub mod core_;
pub mod sdm;
#[cfg(verif)]
pub mod func;
#[cfg(verif)]
pub mod induct;

#[cfg(all(kani, core_text))]
mod coretext;

#[cfg(feature = "serialize")]
pub mod rt;

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        /// Every contract, by harness name.
        pub static ALL: &[&[(&str, fn())]] = &[
            $($m::REG,)*
            desc::REG_BOUND,
            derived::REG_SMT,
            #[cfg(feature = "serialize")]
            rt::REG,
            #[cfg(verif)]
            func::REG,
            #[cfg(verif)]
            induct::REG,
            #[cfg(verif)]
            induct::REG_STATE,
            #[cfg(verif)]
            induct::REG_LOOPS,
            #[cfg(verif)]
            induct::REG_TOTAL,
        ];
    };
}
modules! { gate frame nums flags enums desc iters xstate qos hyperv derived strings total dbg native }
