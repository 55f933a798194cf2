import json
def P(id,title,statement,qtext,why,files,mech,observe,over=("inputs",),hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=state
    return json.dumps(d)
L="src/lib.rs"; X="src/extended.rs"
T="The tests replay a few recorded processor dumps; each fixes every register, so a decoding that is right on those dumps and wrong elsewhere passes."
out=[
P("C01","Queries answer exactly when the processor reports the leaf",
 "A top-level query returns information if and only if the processor reports the leaf or leaves it is documented to need: the basic leaf is at most the maximum basic leaf, the extended leaf at most the maximum extended leaf, the leaf is not one that the vendor reserves, and the feature flag or vendor that the leaf depends on is present. Otherwise it returns nothing. The vendor is recognised from the vendor string alone.",
 "every vendor string, every maximum basic and extended leaf, every register of the gating leaves",
 "The dumps have a handful of maximum leaves and three vendor strings; no dump sits at a limit, and unsupported leaves are sampled only where a dump happens to lack them.",
 [L,X],[("leaf_is_supported","CpuId::leaf_is_supported, src/lib.rs"),("query methods","CpuId::get_*, src/lib.rs"),("vendor detection","Vendor::from_vendor_leaf, src/lib.rs")],["is_some() of every CpuId::get_* method"],("inputs","configurations")),
P("C02","A query depends only on its own leaves",
 "A query, and every sub-query and iterator step reached from its result, reads only the leaf and sub-leaf pairs documented for it (besides the two maximum-leaf leaves). No value reported for one leaf can depend on the registers of another, and no leaf is read that the gate of the query did not establish as supported.",
 "every register value of every leaf, for every query",
 "A dump-backed reader answers unknown pairs with zero or panics on them only where the test happens to call; reading a wrong sub-leaf that has equal registers in the dump is invisible.",
 [L,X],[("query methods","CpuId::get_*, src/lib.rs"),("lazy sub-queries","RdtMonitoringInfo, RdtAllocationInfo, SgxInfo, SoCVendorInfo, PqosExtendedFeatureInfo, src/lib.rs and src/extended.rs")],["the (EAX, ECX) arguments of CpuIdReader::cpuid2"]),
P("C03","Numeric fields of the basic leaves equal their register bits",
 "Every accessor that reports a number from a basic or hypervisor leaf returns exactly the documented bit field of that leaf's registers, with the documented offset (for example plus one) applied, for all register values and without losing high bits.",
 "every value of EAX, EBX, ECX and EDX of every basic leaf", T,
 [L],[("get_bits","src/lib.rs"),("accessors","FeatureInfo, CacheParameter, MonitorMwaitInfo, ThermalPowerInfo, ExtendedFeatures, PerformanceMonitoringInfo, ExtendedTopologyLevel, ExtendedStateInfo, RdtMonitoring/Allocation, SgxInfo, ProcessorTraceInfo, TscInfo, ProcessorFrequencyInfo, DatInfo, SoCVendorInfo, src/lib.rs")],["return values of the accessors"]),
P("C04","Numeric fields of the extended leaves equal their register bits",
 "Every accessor that reports a number from an extended (0x8000_0000 and up) leaf returns exactly the documented bit field of that leaf's registers, with the documented offset applied, for all register values and without losing high bits.",
 "every value of EAX, EBX, ECX and EDX of every extended leaf", T,
 [X],[("get_bits","src/lib.rs"),("accessors","L1CacheTlbInfo, L2And3CacheTlbInfo, ApmInfo, ProcessorCapacityAndFeatureInfo, SvmFeatures, Tlb1gbPageInfo, ProcessorTopologyInfo, MemoryEncryptionInfo, PqosExtendedFeatureInfo and the further ones, src/extended.rs")],["return values of the accessors"]),
P("C05","Feature predicates of the basic leaves equal their register bit",
 "Every predicate on a basic leaf is true if and only if the documented bit of the documented register is set (or clear, where the documentation defines an inverted bit). No other bit influences it.",
 "all 2^32 values of each flag register, for every predicate",
 "A dump sets each flag one way, and many flags are never set in any dump, so a predicate wired to a neighbouring bit or to the wrong register passes.",
 [L],[("bitflags and check_flag!/check_bit_fn!","src/lib.rs"),("feature structs","FeatureInfo, ExtendedFeatures, ThermalPowerInfo, ExtendedStateInfo, SgxInfo, ProcessorTraceInfo, ..., src/lib.rs")],["return values of has_* / is_* / supports_* methods"]),
P("C06","Feature predicates of the extended leaves equal their register bit",
 "Every predicate on an extended leaf is true if and only if the documented bit of the documented register is set. Where a flag is documented for one vendor only, it is reported on that vendor and false on the others.",
 "all 2^32 values of each flag register, for every predicate and every vendor",
 "As for the basic leaves; besides, only a few dumps come from AMD machines, so the vendor dependence of a flag is hardly sampled.",
 [X],[("bitflags and check_flag!","src/extended.rs"),("feature structs","ExtendedProcessorFeatureIdentifiers, ApmInfo, ProcessorCapacityAndFeatureInfo, SvmFeatures, MemoryEncryptionInfo, InstructionBasedSamplingCapabilities, ..., src/extended.rs")],["return values of has_* methods"]),
P("C07","No processor answer makes the library panic or read out of bounds",
 "Whatever registers the processor reports, no query, accessor or iterator step panics, overflows in arithmetic, shifts by an excessive amount, or reads memory outside its own data. This includes reserved encodings and all-ones registers.",
 "every register value of every leaf; every accessor; every iterator state",
 "Registers of real processors stay far from the extreme and reserved values where arithmetic overflows or an unreachable arm is reached.",
 [L,X],[("get_bits","src/lib.rs"),("string views over registers (unsafe)","VendorInfo::as_str, SoCVendorBrand::as_str, ProcessorBrandString::as_str"),("iterators","CacheInfoIter, CacheParametersIter, ExtendedTopologyIter, ExtendedStateIter, SgxSectionIter, DatIter, SoCVendorAttributesIter, ExtendedCpuTopologyIter")],["normal return of every public query and accessor"],("inputs","histories")),
P("C08","Leaf 2 descriptors are reported completely, in order, with their meaning",
 "Iterating the leaf 2 information yields, in byte order over EAX, EBX, ECX, EDX per byte plane and skipping AL, exactly the descriptor bytes the manual defines, taken only from registers whose bit 31 is clear. Each is reported with its number, its documented type and its documented description; undefined bytes are skipped and do not end the iteration.",
 "all 2^128 values of the leaf 2 registers; every descriptor number",
 "The dumps contain about a dozen of the more than one hundred descriptors and no register marked invalid or undefined byte in the middle.",
 [L],[("CacheInfoIter::next","src/lib.rs"),("CACHE_INFO_TABLE","src/lib.rs"),("CacheInfo::desc","src/lib.rs")],["items of CpuId::get_cache_info()"],("inputs","histories"),"construct a CacheInfoIter at any position; loop contract on the table scan"),
P("C09","Cache parameter iteration reports sub-leaves 0, 1, 2, ... up to the first null",
 "The n-th item of the cache parameter iteration carries the registers of sub-leaf n of leaf 4 (leaf 0x8000001D on AMD). The iteration ends exactly at the first sub-leaf whose cache type is null or reserved.",
 "every sequence of sub-leaf registers, of any length",
 "Real machines report three or four caches; reserved types, longer sequences and the sub-leaf passed per step are not varied.",
 [L],[("CacheParametersIter::next","src/lib.rs"),("vendor dependent leaf","CpuId::get_cache_parameters, src/lib.rs")],["items of CpuId::get_cache_parameters()"],("inputs","histories"),"construct the iterator at any sub-leaf counter"),
P("C10","Topology iteration reports levels in sub-leaf order up to the first invalid one",
 "The n-th item of the extended topology iterations (leaves 0xB, 0x1F and 0x80000026) carries the registers of sub-leaf n of that leaf. The iteration ends exactly at the first sub-leaf whose level type is invalid.",
 "every sequence of sub-leaf registers, of any length",
 "Real machines report two or three levels of the types SMT and core; other types, reserved types and longer sequences do not occur.",
 [L,X],[("ExtendedTopologyIter::next","src/lib.rs"),("ExtendedCpuTopologyIter::next","src/extended.rs")],["items of get_extended_topology_info(), get_extended_topology_info_v2(), get_extended_cpu_topology()"],("inputs","histories"),"construct the iterators at any sub-leaf counter"),
P("C11","XSAVE state iteration reports exactly the enabled components",
 "Iterating the extended state information yields, ascending and once each, exactly the components 2 to 31 whose bit is set in XCR0 or IA32_XSS. Each item carries the size, offset and placement flags of that component's own sub-leaf.",
 "all 2^64 combinations of the two component masks, every register of every component sub-leaf",
 "The dumps have a few fixed component masks made of the components that the library names.",
 [L],[("ExtendedStateIter::next","src/lib.rs"),("component masks","ExtendedStateInfoXCR0Flags, ExtendedStateInfoXSSFlags, src/lib.rs")],["items of get_extended_state_info().iter()"],("inputs","histories"),"construct the iterator after any component"),
P("C12","Address translation and EPC iteration cover every valid sub-leaf",
 "The address translation iteration yields, ascending and once each, exactly the sub-leaves between 0 and the reported maximum that are marked valid, however many invalid ones lie between, and then ends. The EPC section iteration yields sub-leaves 2, 3, ... up to the first invalid one, each with the documented base and size.",
 "every maximum sub-leaf up to 2^32-1, every pattern of valid and invalid sub-leaves",
 "One dump has address translation data with small maximum and few gaps, none has several EPC sections; the walk length cannot be sampled exhaustively.",
 [L],[("DatIter::next","src/lib.rs"),("SgxSectionIter::next","src/lib.rs")],["items of get_deterministic_address_translation_info() and get_sgx_info().iter()"],("inputs","histories"),"construct the iterators at any sub-leaf; loop contract on the search for the next valid sub-leaf"),
P("C13","SoC vendor brand and attributes are reported exactly up to the maximum sub-leaf",
 "The SoC vendor brand is available if and only if the maximum sub-leaf of leaf 0x17 is at least 3, and the attribute iteration if and only if it exceeds 3. The attribute iteration yields the registers of sub-leaves 4, 5, ... up to the maximum and then ends.",
 "every maximum sub-leaf, every register of every attribute sub-leaf",
 "No dump reports leaf 0x17 with attributes.",
 [L],[("SoCVendorInfo::get_vendor_brand / get_vendor_attributes","src/lib.rs"),("SoCVendorAttributesIter::next","src/lib.rs")],["get_soc_vendor_info() results"],("inputs","histories"),"construct the iterator at any sub-leaf"),
P("C14","Strings are the register bytes, or the documented placeholder",
 "The vendor string, the processor brand string and the SoC vendor brand are the bytes of their registers in the documented order whenever these are valid text (the brand string up to its first NUL, without surrounding white space). Otherwise they are the documented placeholder text; invalid bytes never become a string.",
 "all 2^96 vendor and all 2^384 brand register values",
 "The dumps contain a dozen well formed ASCII strings.",
 [L,X],[("VendorInfo::as_str, SoCVendorBrand::as_str","src/lib.rs"),("ProcessorBrandString::as_str","src/extended.rs")],["as_str() results"]),
P("C15","Quantities computed from several fields follow the documented formula",
 "Display family and model, processor serial numbers, TSC frequency, EPC section addresses and sizes, SECS attribute masks, time stamp counter size and the maximum number of logical processors equal the value that the vendor's documented formula gives for the registers, without overflow or truncation wherever the result type can hold it.",
 "every register value of the leaves involved, every vendor",
 "Each dump is one point of the formula; the family/model rules branch on values that no dump contains.",
 [L,X],[("FeatureInfo::family_id/model_id","src/lib.rs"),("ProcessorSerial::serial/serial_all","src/lib.rs"),("TscInfo::tsc_frequency","src/lib.rs"),("EpcSection","src/lib.rs"),("ProcessorCapacityAndFeatureInfo","src/extended.rs")],["return values of the accessors"]),
P("C16","Encoded fields decode to the documented variant for every encoding",
 "Associativity, cache type, topology level and core type, page and partition attributes, DAT structure type, XSAVE component and similar encoded fields decode to the variant that the manual assigns to the encoding. Reserved encodings decode to the reserved, invalid or unknown variant and never to a defined one.",
 "every encoding value of every decoded field",
 "A dump has one or two encodings of each field; most encodings never occur.",
 [L,X],[("From<u32>/From<u8> decoders","CacheType, TopologyType, ExtendedRegisterType, DatType, src/lib.rs; Associativity, CoreType, LevelType, src/extended.rs")],["return values of the decoding accessors"]),
P("C17","Hypervisor identity and frequencies follow the hypervisor leaves",
 "The hypervisor is identified by the 12-byte signature in leaf 0x40000000 and by nothing else; any other signature is reported as unknown together with its registers. The TSC and APIC frequencies are available exactly when leaf 0x40000010 is within the hypervisor's maximum leaf, and are its EAX and EBX.",
 "every signature, every maximum hypervisor leaf",
 "One or two dumps come from virtual machines.",
 [L],[("HypervisorInfo::identify, tsc_frequency, apic_frequency","src/lib.rs")],["return values"]),
P("C18","RDT and PQoS sub-features are available exactly when flagged",
 "Cache monitoring, cache allocation, bandwidth allocation and the AMD PQoS sub-features are available if and only if their flag is set in the parent leaf, and then report the registers of their own documented sub-leaf.",
 "every register value of the parent leaf and of its sub-leaves",
 "Few dumps enumerate these leaves, each with one combination of flags.",
 [L,X],[("RdtMonitoringInfo, RdtAllocationInfo","src/lib.rs"),("PqosExtendedFeatureInfo","src/extended.rs")],["results of l3_monitoring(), l3_cat(), l2_cat(), memory_bandwidth_allocation() and the PQoS getters"]),
P("C19","A serialized register set round-trips",
 "With the serialize feature, a CpuIdResult that is serialized and deserialized again has the same four registers, in positional data formats as well as in self-describing ones, whatever the order of the named fields.",
 "every value of the four registers, every rotation of the field order",
 "The tests do not serialize.",
 [L],[("CpuIdResult: derive(Serialize, Deserialize)","src/lib.rs")],["the registers after a round trip"]),
P("C20","Debug output of the information structs shows the values the accessors report",
 "The Debug output of an information struct (printed with any register values) lists fields by accessor name, and the value shown for a field is the value that the accessor of that name returns; fields that depend on the vendor or on a flag are shown exactly when that accessor applies.",
 "every register value of every leaf, every vendor",
 "The tests do not inspect printed output.",
 [L,X],[("Debug implementations","src/lib.rs, src/extended.rs")],["text printed with {:?}"]),
P("C22","The markdown and raw displays show the values the accessors report",
 "The markdown and raw displays (feature display, the cpuid binary) print, for each leaf that is available, the values that the corresponding accessors report, and the raw registers.",
 "every register value of every leaf",
 "The tests do not inspect printed output.",
 ["src/display.rs","src/bin/cpuid.rs"],[("markdown/raw display","src/display.rs")],["printed text"]),
P("C21","The native reader executes CPUID with the given leaf and sub-leaf",
 "The native reader returns the registers that the processor's CPUID instruction leaves for exactly the given EAX and ECX inputs.",
 "every leaf and sub-leaf, every x86 processor",
 "The tests run on one machine.",
 [L],[("native_cpuid::cpuid_count","src/lib.rs")],["CpuIdReaderNative"],("inputs","configurations")),
]
open('/verif/properties.jsonl','w').write("\n".join(out)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in out: jsonschema.validate(json.loads(l),sch)
print(len(out))
