From 2938d034d4cae8a7dc90f322255607c7e460d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 01/17] fix: FeatureInfo::family_id no longer overflows for a
 large extended family

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..497a631 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1965,7 +1965,8 @@ impl FeatureInfo {
         if just_use_base {
             base_family_id
         } else {
-            base_family_id + extended_family_id
+            // At most 0xf + 0xff, which does not fit the result.
+            base_family_id.saturating_add(extended_family_id)
         }
     }
 
-- 
2.43.0


From 52e9ff211a2cdf21894749f8f7934074332bf17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 02/17] fix: CacheParameter::sets no longer overflows when ECX
 is all ones

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 497a631..890bce0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2834,7 +2834,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        self.ecx as usize + 1
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From 40436a4192d28d2967b74244ce100f5004627d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 03/17] fix: reserved topology level types end the iteration
 instead of panicking

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 890bce0..f10950f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4434,7 +4434,8 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            // Reserved level types.
+            _ => TopologyType::Invalid,
         }
     }
 
-- 
2.43.0


From d0a633b2a25949a91ce061c8a990b0f447b17a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 04/17] fix: SoC vendor attribute iterator yields sub-leaves
 4..=max and terminates

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f10950f..8e02262 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5894,11 +5894,11 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current >= self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        self.current += 1;
+        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))
     }
 }
 
-- 
2.43.0


From e7c317bd6614102419471683712a912ca593a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 05/17] fix: cache descriptors in registers marked invalid (bit
 31) are skipped

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8e02262..10ebdbe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1234,7 +1234,8 @@ impl Iterator for CacheInfoIter {
             _ => unreachable!(),
         } as u8;
 
-        if byte == 0 {
+        // Bit 31 set means that the register holds no valid descriptors.
+        if byte == 0 || reg & (1 << 31) != 0 {
             self.current += 1;
             return self.next();
         }
-- 
2.43.0


From 86972e3fddf0c456791e14da3ce81a7597c6f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 06/17] fix: an unknown cache descriptor no longer ends the
 iteration

---
 src/lib.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 10ebdbe..3729c9c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1234,20 +1234,19 @@ impl Iterator for CacheInfoIter {
             _ => unreachable!(),
         } as u8;
 
-        // Bit 31 set means that the register holds no valid descriptors.
-        if byte == 0 || reg & (1 << 31) != 0 {
-            self.current += 1;
-            return self.next();
-        }
+        self.current += 1;
 
-        for cache_info in CACHE_INFO_TABLE.iter() {
-            if cache_info.num == byte {
-                self.current += 1;
-                return Some(*cache_info);
+        // Bit 31 set means that the register holds no valid descriptors.
+        if byte != 0 && reg & (1 << 31) == 0 {
+            for cache_info in CACHE_INFO_TABLE.iter() {
+                if cache_info.num == byte {
+                    return Some(*cache_info);
+                }
             }
         }
 
-        None
+        // Not a descriptor we know about, continue with the remaining ones.
+        self.next()
     }
 }
 
-- 
2.43.0


From d696381aa0ce6570123f67083ad8f15f864d3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 07/17] fix: CACHE_INFO_TABLE lists the descriptors 0x1D, 0x64,
 0xA0 and 0xC4

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3729c9c..d802843 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1427,7 +1427,7 @@ impl fmt::Display for CacheInfo {
 }
 
 /// This table is taken from Intel manual (Section CPUID instruction).
-pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
+pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     CacheInfo {
         num: 0x00,
         typ: CacheInfoType::General,
@@ -1484,6 +1484,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x0E,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0x1D,
+        typ: CacheInfoType::Cache,
+    },
     CacheInfo {
         num: 0x21,
         typ: CacheInfoType::Cache,
@@ -1636,6 +1640,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x63,
         typ: CacheInfoType::TLB,
     },
+    CacheInfo {
+        num: 0x64,
+        typ: CacheInfoType::TLB,
+    },
     CacheInfo {
         num: 0x66,
         typ: CacheInfoType::Cache,
@@ -1736,6 +1744,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x87,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0xA0,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xB0,
         typ: CacheInfoType::TLB,
@@ -1780,6 +1792,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0xC2,
         typ: CacheInfoType::DTLB,
     },
+    CacheInfo {
+        num: 0xC4,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xCA,
         typ: CacheInfoType::STLB,
-- 
2.43.0


From f12bc7e0210b78399759f32f440b0808e137c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 08/17] fix: ExtendedFeatures::mawau_value reports the MAWAU
 field instead of 0

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d802843..913dbf7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -524,7 +524,8 @@ impl<R: CpuIdReader> CpuId<R> {
             Some(ExtendedFeatures {
                 _eax: res.eax,
                 ebx: ExtendedFeaturesEbx::from_bits_truncate(res.ebx),
-                ecx: ExtendedFeaturesEcx::from_bits_truncate(res.ecx),
+                // Also holds the MAWAU value, which is not a flag.
+                ecx: ExtendedFeaturesEcx::from_bits_retain(res.ecx),
                 edx: ExtendedFeaturesEdx::from_bits_truncate(res.edx),
                 eax1: ExtendedFeaturesEax1::from_bits_truncate(res1.eax),
                 _ebx1: res1.ebx,
-- 
2.43.0


From bb3624deff1092e728c692532acff651c834c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 09/17] fix: ProcessorTopologyInfo::threads_per_core no longer
 overflows

---
 src/extended.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended.rs b/src/extended.rs
index d79df32..231a821 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -1723,7 +1723,7 @@ impl ProcessorTopologyInfo {
     /// # Note
     /// `Threads per Core` means `Cores per Compute Unit` if AMD Family 15h-16h Processors.
     pub fn threads_per_core(&self) -> u8 {
-        get_bits(self.ebx, 8, 15) as u8 + 1
+        (get_bits(self.ebx, 8, 15) as u8).saturating_add(1)
     }
 
     /// Node ID
-- 
2.43.0


From e2c801d9c03544d059d5f7bf45ca17c0b2cc61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 10/17] fix: state iterator reports XSAVE components that have
 no named flag

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 913dbf7..a4ce69c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -614,13 +614,14 @@ impl<R: CpuIdReader> CpuId<R> {
             let res1 = self.read.cpuid2(EAX_EXTENDED_STATE_INFO, 1);
             Some(ExtendedStateInfo {
                 read: self.read.clone(),
-                eax: ExtendedStateInfoXCR0Flags::from_bits_truncate(res.eax),
+                // Keep components without a named flag, iter() reports them.
+                eax: ExtendedStateInfoXCR0Flags::from_bits_retain(res.eax),
                 ebx: res.ebx,
                 ecx: res.ecx,
                 _edx: res.edx,
                 eax1: res1.eax,
                 ebx1: res1.ebx,
-                ecx1: ExtendedStateInfoXSSFlags::from_bits_truncate(res1.ecx),
+                ecx1: ExtendedStateInfoXSSFlags::from_bits_retain(res1.ecx),
                 _edx1: res1.edx,
             })
         } else {
-- 
2.43.0


From 5658393dc11ce84bafa493ff2078af4b5a824b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 11/17] fix: address translation iterator ends when the last
 sub-leaf index is u32::MAX

---
 src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a4ce69c..2e2a981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5651,7 +5651,8 @@ impl fmt::Debug for ProcessorFrequencyInfo {
 #[derive(Clone)]
 pub struct DatIter<R: CpuIdReader> {
     read: R,
-    current: u32,
+    /// Wider than a sub-leaf index so that it can go past the largest one.
+    current: u64,
     count: u32,
 }
 
@@ -5662,13 +5663,14 @@ impl<R: CpuIdReader> Iterator for DatIter<R> {
     fn next(&mut self) -> Option<DatInfo> {
         loop {
             // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
-            if self.current > self.count {
+            if self.current > self.count as u64 {
                 return None;
             }
 
-            let res = self
-                .read
-                .cpuid2(EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO, self.current);
+            let res = self.read.cpuid2(
+                EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO,
+                self.current as u32,
+            );
             self.current += 1;
 
             // A sub-leaf index is also invalid if EDX[4:0] returns 0.
-- 
2.43.0


From 9d5452a6a433117b4f04facff100e2fe62f5ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 12/17] fix: the AMX_INT8 row reports AMX_INT8 instead of
 AMX_TILE

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..dfe2b2e 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0


From 4b214a8fcd1b577ec9eb753e145a24037f9c371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 13/17] verif: hooks for the iterator contracts (cfg verif)

---
 src/extended.rs |   5 ++
 src/lib.rs      |   9 ++++
 src/verif.rs    | 131 ++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 145 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/extended.rs b/src/extended.rs
index 231a821..dedc345 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -2411,6 +2411,11 @@ impl<R: CpuIdReader> ExtendedCpuTopologyIter<R> {
     pub fn new(read: R) -> Self {
         Self { read, level: 0 }
     }
+
+    #[cfg(verif)]
+    pub(crate) fn verif_at(read: R, level: u32) -> Self {
+        Self { read, level }
+    }
 }
 
 /// Gives information about the current level in the cpu topology.
diff --git a/src/lib.rs b/src/lib.rs
index 2e2a981..0bdd048 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -50,6 +50,7 @@
 #![cfg_attr(not(feature = "std"), no_std)]
 #![crate_name = "raw_cpuid"]
 #![crate_type = "lib"]
+#![cfg_attr(all(verif, kani), feature(stmt_expr_attributes, proc_macro_hygiene))]
 
 #[cfg(test)]
 #[macro_use]
@@ -60,6 +61,9 @@ pub mod display;
 mod extended;
 #[cfg(test)]
 mod tests;
+#[cfg(verif)]
+#[doc(hidden)]
+pub mod verif;
 
 use bitflags::bitflags;
 use core::fmt::{self, Debug, Formatter};
@@ -1240,6 +1244,7 @@ impl Iterator for CacheInfoIter {
 
         // Bit 31 set means that the register holds no valid descriptors.
         if byte != 0 && reg & (1 << 31) == 0 {
+            #[cfg_attr(all(verif, kani), kani::loop_invariant(kani::index <= verif::scan_limit(byte)))]
             for cache_info in CACHE_INFO_TABLE.iter() {
                 if cache_info.num == byte {
                     return Some(*cache_info);
@@ -5661,6 +5666,10 @@ impl<R: CpuIdReader> Iterator for DatIter<R> {
 
     /// Iterate over each sub-leaf with an address translation structure.
     fn next(&mut self) -> Option<DatInfo> {
+        #[cfg_attr(all(verif, kani), kani::loop_invariant(
+            on_entry(self.current) <= self.current
+                && self.current <= verif::walk_limit(on_entry(self.current), self.count)
+        ))]
         loop {
             // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
             if self.current > self.count as u64 {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..a02dbb9
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,131 @@
+//! Verification hooks, compiled with `--cfg verif` only.
+//!
+//! The contracts of the iterators speak about every state, not just the ones a
+//! short walk reaches: these functions construct an iterator at a given state
+//! and expose the internal functions that the queries share.
+
+use super::*;
+
+pub fn bits(r: u32, from: u32, to: u32) -> u32 {
+    get_bits(r, from, to)
+}
+
+pub fn leaf_is_supported<R: CpuIdReader>(c: &CpuId<R>, leaf: u32) -> bool {
+    c.leaf_is_supported(leaf)
+}
+
+pub fn cache_info_iter(r: CpuIdResult, current: u32) -> CacheInfoIter {
+    CacheInfoIter {
+        current,
+        eax: r.eax,
+        ebx: r.ebx,
+        ecx: r.ecx,
+        edx: r.edx,
+    }
+}
+
+pub fn cache_parameters_iter<R: CpuIdReader>(
+    read: R,
+    leaf: u32,
+    current: u32,
+) -> CacheParametersIter<R> {
+    CacheParametersIter {
+        read,
+        leaf,
+        current,
+    }
+}
+
+pub fn topology_iter<R: CpuIdReader>(read: R, is_v2: bool, level: u32) -> ExtendedTopologyIter<R> {
+    ExtendedTopologyIter { read, level, is_v2 }
+}
+
+pub fn cpu_topology_iter<R: CpuIdReader>(read: R, level: u32) -> ExtendedCpuTopologyIter<R> {
+    ExtendedCpuTopologyIter::verif_at(read, level)
+}
+
+pub fn state_iter<R: CpuIdReader>(
+    read: R,
+    level: u32,
+    supported_xcr0: u32,
+    supported_xss: u32,
+) -> ExtendedStateIter<R> {
+    ExtendedStateIter {
+        read,
+        level,
+        supported_xcr0,
+        supported_xss,
+    }
+}
+
+pub fn sgx_iter<R: CpuIdReader>(read: R, current: u32) -> SgxSectionIter<R> {
+    SgxSectionIter { read, current }
+}
+
+pub fn dat_iter<R: CpuIdReader>(read: R, current: u64, count: u32) -> DatIter<R> {
+    DatIter {
+        read,
+        current,
+        count,
+    }
+}
+
+pub fn soc_attributes_iter<R: CpuIdReader>(
+    read: R,
+    current: u32,
+    count: u32,
+) -> SoCVendorAttributesIter<R> {
+    SoCVendorAttributesIter {
+        read,
+        count,
+        current,
+    }
+}
+
+pub fn state_iter_same<R: CpuIdReader>(a: &ExtendedStateIter<R>, b: &ExtendedStateIter<R>) -> bool {
+    a.level == b.level && a.supported_xcr0 == b.supported_xcr0 && a.supported_xss == b.supported_xss
+}
+
+pub fn dat_iter_same<R: CpuIdReader>(a: &DatIter<R>, b: &DatIter<R>) -> bool {
+    a.current == b.current && a.count == b.count
+}
+
+pub fn soc_attributes_iter_same<R: CpuIdReader>(
+    a: &SoCVendorAttributesIter<R>,
+    b: &SoCVendorAttributesIter<R>,
+) -> bool {
+    a.current == b.current && a.count == b.count
+}
+
+/// Ghost state of the loop contracts: an arbitrary table entry, and an arbitrary
+/// sub-leaf of leaf 0x18 together with whether it is valid.
+pub static mut ENTRY: usize = 0;
+pub static mut SUBLEAF: (u32, bool) = (0, false);
+
+/// The scan for `byte` does not get past the arbitrary entry if that one matches.
+pub fn scan_limit(byte: u8) -> usize {
+    let w = unsafe { ENTRY };
+    if CACHE_INFO_TABLE[w].num == byte {
+        w
+    } else {
+        CACHE_INFO_TABLE.len()
+    }
+}
+
+/// The walk over 0..=`count`, begun at `entry`, does not get past the arbitrary
+/// sub-leaf if that one is valid.
+pub fn walk_limit(entry: u64, count: u32) -> u64 {
+    let (j, valid) = unsafe { SUBLEAF };
+    if valid && entry <= j as u64 && j <= count {
+        j as u64
+    } else if entry > count as u64 {
+        entry
+    } else {
+        count as u64 + 1
+    }
+}
+
+/// The sub-leaf a walk reads next.
+pub fn dat_position<R: CpuIdReader>(i: &DatIter<R>) -> u64 {
+    i.current
+}
-- 
2.43.0


From a621f8de818201b30e8dc05fcb8f7bca3e7a5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 14/17] verif: contracts on the functions that the queries
 share (cfg verif)

---
 src/extended.rs | 13 +++++++++
 src/lib.rs      |  5 ++++
 src/verif.rs    | 75 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 93 insertions(+)

diff --git a/src/extended.rs b/src/extended.rs
index dedc345..c6bbfc7 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -766,6 +766,7 @@ impl L2And3CacheTlbInfo {
 
 /// Info about cache Associativity.
 #[derive(PartialEq, Eq, Debug)]
+#[cfg_attr(all(verif, kani), derive(kani::Arbitrary))]
 pub enum Associativity {
     Disabled,
     DirectMapped,
@@ -791,6 +792,7 @@ impl Display for Associativity {
 
 impl Associativity {
     /// Constructor for L1 Cache and TLB Associativity Field Encodings
+    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == crate::verif::associativity_l1(n)))]
     fn for_l1(n: u8) -> Associativity {
         match n {
             0x0 => Associativity::Disabled, // Intel only, AMD is reserved
@@ -801,6 +803,7 @@ impl Associativity {
     }
 
     /// Constructor for L2 Cache and TLB Associativity Field Encodings
+    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == crate::verif::associativity_l2(n)))]
     fn for_l2(n: u8) -> Associativity {
         match n {
             0x0 => Associativity::Disabled,
@@ -823,9 +826,19 @@ impl Associativity {
     }
 
     /// Constructor for L2 Cache and TLB Associativity Field Encodings
+    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == crate::verif::associativity_l2(n)))]
     fn for_l3(n: u8) -> Associativity {
         Associativity::for_l2(n)
     }
+
+    #[cfg(verif)]
+    pub(crate) fn verif_for(cache: u32, n: u8) -> Associativity {
+        match cache {
+            1 => Associativity::for_l1(n),
+            2 => Associativity::for_l2(n),
+            _ => Associativity::for_l3(n),
+        }
+    }
 }
 
 /// Processor Power Management and RAS Capabilities (LEAF=0x8000_0007).
diff --git a/src/lib.rs b/src/lib.rs
index 0bdd048..d4d1034 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -138,6 +138,8 @@ macro_rules! cpuid {
     };
 }
 
+#[cfg_attr(all(verif, kani), kani::requires(from <= to && to <= 31))]
+#[cfg_attr(all(verif, kani), kani::ensures(|x| *x == verif::field(r, from, to)))]
 fn get_bits(r: u32, from: u32, to: u32) -> u32 {
     assert!(from <= 31);
     assert!(to <= 31);
@@ -195,6 +197,7 @@ where
 }
 
 #[derive(Debug, Eq, PartialEq, Clone, Copy)]
+#[cfg_attr(all(verif, kani), derive(kani::Arbitrary))]
 enum Vendor {
     Intel,
     Amd,
@@ -202,6 +205,7 @@ enum Vendor {
 }
 
 impl Vendor {
+    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == verif::vendor(res)))]
     fn from_vendor_leaf(res: CpuIdResult) -> Self {
         let vi = VendorInfo {
             ebx: res.ebx,
@@ -363,6 +367,7 @@ impl<R: CpuIdReader> CpuId<R> {
     }
 
     /// Check if a non extended leaf  (`val`) is supported.
+    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == verif::supported(self, val)))]
     fn leaf_is_supported(&self, val: u32) -> bool {
         // Exclude reserved functions/leafs on AMD
         if self.vendor == Vendor::Amd && ((0x2..=0x4).contains(&val) || (0x8..=0xa).contains(&val))
diff --git a/src/verif.rs b/src/verif.rs
index a02dbb9..52e1a04 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -129,3 +129,78 @@ pub fn walk_limit(entry: u64, count: u32) -> u64 {
 pub fn dat_position<R: CpuIdReader>(i: &DatIter<R>) -> u64 {
     i.current
 }
+
+// Specifications of the functions under contract.
+
+pub(crate) fn field(r: u32, from: u32, to: u32) -> u32 {
+    ((r as u64 >> from) & ((1 << (to - from + 1)) - 1)) as u32
+}
+
+pub(crate) fn vendor(leaf: CpuIdResult) -> Vendor {
+    let is = |s: &[u8; 12]| {
+        let word = |i| u32::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]]);
+        leaf.ebx == word(0) && leaf.edx == word(4) && leaf.ecx == word(8)
+    };
+    if is(b"GenuineIntel") {
+        Vendor::Intel
+    } else if is(b"AuthenticAMD") || is(b"HygonGenuine") {
+        Vendor::Amd
+    } else {
+        Vendor::Unknown(leaf.ebx, leaf.ecx, leaf.edx)
+    }
+}
+
+pub(crate) fn supported<R: CpuIdReader>(c: &CpuId<R>, leaf: u32) -> bool {
+    match leaf {
+        0x2 | 0x3 | 0x4 | 0x8 | 0x9 | 0xA if c.vendor == Vendor::Amd => false,
+        0x8000_0000.. => leaf <= c.supported_extended_leafs,
+        _ => leaf <= c.supported_leafs,
+    }
+}
+
+pub(crate) fn associativity_l1(n: u8) -> Associativity {
+    match n {
+        0 => Associativity::Disabled,
+        1 => Associativity::DirectMapped,
+        0xFF => Associativity::FullyAssociative,
+        _ => Associativity::NWay(n),
+    }
+}
+
+/// Also that of the L3 cache and of the TLBs.
+pub(crate) fn associativity_l2(n: u8) -> Associativity {
+    match n {
+        0 => Associativity::Disabled,
+        1 => Associativity::DirectMapped,
+        2 | 4 => Associativity::NWay(n),
+        5 => Associativity::NWay(6),
+        6 => Associativity::NWay(8),
+        8 => Associativity::NWay(16),
+        0xA => Associativity::NWay(32),
+        0xB => Associativity::NWay(48),
+        0xC => Associativity::NWay(64),
+        0xD => Associativity::NWay(96),
+        0xE => Associativity::NWay(128),
+        0xF => Associativity::FullyAssociative,
+        _ => Associativity::Unknown,
+    }
+}
+
+// The functions under contract, for the contracts' harnesses.
+
+pub fn vendor_of(leaf: CpuIdResult) -> (bool, bool) {
+    let v = Vendor::from_vendor_leaf(leaf);
+    (v == Vendor::Intel, v == Vendor::Amd)
+}
+
+pub fn for_l1(n: u8) -> Associativity {
+    Associativity::verif_for(1, n)
+}
+
+pub fn for_l2(n: u8) -> Associativity {
+    Associativity::verif_for(2, n)
+}
+
+pub fn for_l3(n: u8) -> Associativity {
+    Associativity::verif_for(3, n)
+}
-- 
2.43.0


From 6056eecf9abdcb9a1052fd3cba11e5c51e813706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 15/17] verif: function contracts under a cfg of their own
 (loop contracts do not cope with them)

---
 src/extended.rs | 6 +++---
 src/lib.rs      | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index c6bbfc7..f2b9e3b 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -792,7 +792,7 @@ impl Display for Associativity {
 
 impl Associativity {
     /// Constructor for L1 Cache and TLB Associativity Field Encodings
-    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == crate::verif::associativity_l1(n)))]
+    #[cfg_attr(all(verif, contracts, kani), kani::ensures(|x| *x == crate::verif::associativity_l1(n)))]
     fn for_l1(n: u8) -> Associativity {
         match n {
             0x0 => Associativity::Disabled, // Intel only, AMD is reserved
@@ -803,7 +803,7 @@ impl Associativity {
     }
 
     /// Constructor for L2 Cache and TLB Associativity Field Encodings
-    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == crate::verif::associativity_l2(n)))]
+    #[cfg_attr(all(verif, contracts, kani), kani::ensures(|x| *x == crate::verif::associativity_l2(n)))]
     fn for_l2(n: u8) -> Associativity {
         match n {
             0x0 => Associativity::Disabled,
@@ -826,7 +826,7 @@ impl Associativity {
     }
 
     /// Constructor for L2 Cache and TLB Associativity Field Encodings
-    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == crate::verif::associativity_l2(n)))]
+    #[cfg_attr(all(verif, contracts, kani), kani::ensures(|x| *x == crate::verif::associativity_l2(n)))]
     fn for_l3(n: u8) -> Associativity {
         Associativity::for_l2(n)
     }
diff --git a/src/lib.rs b/src/lib.rs
index d4d1034..c07a9b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -138,8 +138,8 @@ macro_rules! cpuid {
     };
 }
 
-#[cfg_attr(all(verif, kani), kani::requires(from <= to && to <= 31))]
-#[cfg_attr(all(verif, kani), kani::ensures(|x| *x == verif::field(r, from, to)))]
+#[cfg_attr(all(verif, contracts, kani), kani::requires(from <= to && to <= 31))]
+#[cfg_attr(all(verif, contracts, kani), kani::ensures(|x| *x == verif::field(r, from, to)))]
 fn get_bits(r: u32, from: u32, to: u32) -> u32 {
     assert!(from <= 31);
     assert!(to <= 31);
@@ -205,7 +205,7 @@ enum Vendor {
 }
 
 impl Vendor {
-    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == verif::vendor(res)))]
+    #[cfg_attr(all(verif, contracts, kani), kani::ensures(|x| *x == verif::vendor(res)))]
     fn from_vendor_leaf(res: CpuIdResult) -> Self {
         let vi = VendorInfo {
             ebx: res.ebx,
@@ -367,7 +367,7 @@ impl<R: CpuIdReader> CpuId<R> {
     }
 
     /// Check if a non extended leaf  (`val`) is supported.
-    #[cfg_attr(all(verif, kani), kani::ensures(|x| *x == verif::supported(self, val)))]
+    #[cfg_attr(all(verif, contracts, kani), kani::ensures(|x| *x == verif::supported(self, val)))]
     fn leaf_is_supported(&self, val: u32) -> bool {
         // Exclude reserved functions/leafs on AMD
         if self.vendor == Vendor::Amd && ((0x2..=0x4).contains(&val) || (0x8..=0xa).contains(&val))
-- 
2.43.0


From 4eef4c2078d7caf87b378c4dcac843192450209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 16/17] verif: state hooks do not depend on the width of the
 sub-leaf counter

---
 src/extended.rs |  5 ++++-
 src/verif.rs    | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index f2b9e3b..f906942 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -2427,7 +2427,10 @@ impl<R: CpuIdReader> ExtendedCpuTopologyIter<R> {
 
     #[cfg(verif)]
     pub(crate) fn verif_at(read: R, level: u32) -> Self {
-        Self { read, level }
+        Self {
+            read,
+            level: level.into(),
+        }
     }
 }
 
diff --git a/src/verif.rs b/src/verif.rs
index 52e1a04..97d5f72 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -32,12 +32,16 @@ pub fn cache_parameters_iter<R: CpuIdReader>(
     CacheParametersIter {
         read,
         leaf,
-        current,
+        current: current.into(),
     }
 }
 
 pub fn topology_iter<R: CpuIdReader>(read: R, is_v2: bool, level: u32) -> ExtendedTopologyIter<R> {
-    ExtendedTopologyIter { read, level, is_v2 }
+    ExtendedTopologyIter {
+        read,
+        level: level.into(),
+        is_v2,
+    }
 }
 
 pub fn cpu_topology_iter<R: CpuIdReader>(read: R, level: u32) -> ExtendedCpuTopologyIter<R> {
@@ -59,7 +63,10 @@ pub fn state_iter<R: CpuIdReader>(
 }
 
 pub fn sgx_iter<R: CpuIdReader>(read: R, current: u32) -> SgxSectionIter<R> {
-    SgxSectionIter { read, current }
+    SgxSectionIter {
+        read,
+        current: current.into(),
+    }
 }
 
 pub fn dat_iter<R: CpuIdReader>(read: R, current: u64, count: u32) -> DatIter<R> {
-- 
2.43.0


From f8943f98757c0e2273bf21afbda8d3829752513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 17/17] fix: sub-leaf counters of the iterators do not overflow

A reader that reports every sub-leaf as valid (or next() called on after the
end, for the state components) made the u32 counter overflow.
---
 src/extended.rs | 11 +++++++++--
 src/lib.rs      | 34 +++++++++++++++++++++++++---------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index f906942..b22a43d 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -2417,7 +2417,7 @@ bitflags! {
 #[derive(Clone)]
 pub struct ExtendedCpuTopologyIter<R: CpuIdReader> {
     read: R,
-    level: u32,
+    level: u64,
 }
 
 impl<R: CpuIdReader> ExtendedCpuTopologyIter<R> {
@@ -2527,7 +2527,14 @@ impl<R: CpuIdReader> Iterator for ExtendedCpuTopologyIter<R> {
     type Item = ExtendedCpuTopologyLevel;
 
     fn next(&mut self) -> Option<ExtendedCpuTopologyLevel> {
-        let res = self.read.cpuid2(EAX_EXTENDED_CPU_TOPOLOGY, self.level);
+        // There are no sub-leaves beyond u32::MAX
+        if self.level > u32::MAX as u64 {
+            return None;
+        }
+
+        let res = self
+            .read
+            .cpuid2(EAX_EXTENDED_CPU_TOPOLOGY, self.level as u32);
         self.level += 1;
 
         let ect = ExtendedCpuTopologyLevel::new(res);
diff --git a/src/lib.rs b/src/lib.rs
index c07a9b7..7873469 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2695,7 +2695,7 @@ bitflags! {
 pub struct CacheParametersIter<R: CpuIdReader> {
     read: R,
     leaf: u32,
-    current: u32,
+    current: u64,
 }
 
 impl<R: CpuIdReader> Iterator for CacheParametersIter<R> {
@@ -2707,7 +2707,12 @@ impl<R: CpuIdReader> Iterator for CacheParametersIter<R> {
     /// cpuid is called every-time we advance the iterator to get information
     /// about the next cache.
     fn next(&mut self) -> Option<CacheParameter> {
-        let res = self.read.cpuid2(self.leaf, self.current);
+        // There are no sub-leaves beyond u32::MAX
+        if self.current > u32::MAX as u64 {
+            return None;
+        }
+
+        let res = self.read.cpuid2(self.leaf, self.current as u32);
         let cp = CacheParameter {
             eax: res.eax,
             ebx: res.ebx,
@@ -4414,7 +4419,7 @@ bitflags! {
 #[derive(Clone)]
 pub struct ExtendedTopologyIter<R: CpuIdReader> {
     read: R,
-    level: u32,
+    level: u64,
     is_v2: bool,
 }
 
@@ -4510,10 +4515,16 @@ impl<R: CpuIdReader> Iterator for ExtendedTopologyIter<R> {
     type Item = ExtendedTopologyLevel;
 
     fn next(&mut self) -> Option<ExtendedTopologyLevel> {
+        // There are no sub-leaves beyond u32::MAX
+        if self.level > u32::MAX as u64 {
+            return None;
+        }
+
+        let level = self.level as u32;
         let res = if self.is_v2 {
-            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO_V2, self.level)
+            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO_V2, level)
         } else {
-            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, self.level)
+            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, level)
         };
         self.level += 1;
 
@@ -4799,10 +4810,10 @@ impl<R: CpuIdReader> Iterator for ExtendedStateIter<R> {
     type Item = ExtendedState;
 
     fn next(&mut self) -> Option<ExtendedState> {
-        self.level += 1;
-        if self.level > 31 {
+        if self.level >= 31 {
             return None;
         }
+        self.level += 1;
 
         let bit = 1 << self.level;
         if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {
@@ -5360,14 +5371,19 @@ impl<R: CpuIdReader> Debug for SgxInfo<R> {
 #[derive(Clone)]
 pub struct SgxSectionIter<R: CpuIdReader> {
     read: R,
-    current: u32,
+    current: u64,
 }
 
 impl<R: CpuIdReader> Iterator for SgxSectionIter<R> {
     type Item = SgxSectionInfo;
 
     fn next(&mut self) -> Option<SgxSectionInfo> {
-        let res = self.read.cpuid2(EAX_SGX, self.current);
+        // There are no sub-leaves beyond u32::MAX
+        if self.current > u32::MAX as u64 {
+            return None;
+        }
+
+        let res = self.read.cpuid2(EAX_SGX, self.current as u32);
         self.current += 1;
         match get_bits(res.eax, 0, 3) {
             0b0001 => Some(SgxSectionInfo::Epc(EpcSection {
-- 
2.43.0

