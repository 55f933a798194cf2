import re
cur=None;d={};RT={}
for l in open('expanded.rs'):
    m=re.match(r'\s*impl(?:<[^{]*?>)? (\w+)(?:<\w+>)? \{',l)
    if m and ' for ' not in l: cur=m.group(1); d.setdefault(cur,[])
    elif re.match(r'\s*impl[ <]',l): cur=None
    m=re.match(r'\s*pub (?:const )?fn (\w+)\(&self\)',l)
    if m and cur: d[cur].append(m.group(1))
def touch(t,x,skip=()):
    ms=[m for m in d[t] if m not in skip]
    assert ms,t
    out=[];line=''
    for m in ms:
        if len(line)+len(m)>100: out.append(line); line=''
        line+=' '+m
    out.append(line)
    return f'touch!({x};'+('\n           ').join(out)+');'
simple=[('vendor','get_vendor_info','VendorInfo',[]),
('feature','get_feature_info','FeatureInfo',['L1']),
('serial','get_processor_serial','ProcessorSerial',['L1','(3, 0)']),
('mwait','get_monitor_mwait_info','MonitorMwaitInfo',['(5, 0)']),
('thermal','get_thermal_power_info','ThermalPowerInfo',['(6, 0)']),
('extended_features','get_extended_feature_info','ExtendedFeatures',['(7, 0)','(7, 1)']),
('dca','get_direct_cache_access_info','DirectCacheAccessInfo',['(9, 0)']),
('perfmon','get_performance_monitoring_info','PerformanceMonitoringInfo',['(0xA, 0)']),
('trace','get_processor_trace_info','ProcessorTraceInfo',['(0x14, 0)','(0x14, 1)']),
('tsc','get_tsc_info','TscInfo',['(0x15, 0)']),
('frequency','get_processor_frequency_info','ProcessorFrequencyInfo',['(0x16, 0)']),
('hypervisor','get_hypervisor_info','HypervisorInfo',['L1','(0x4000_0000, 0)','(0x4000_0010, 0)']),
('identifiers','get_extended_processor_and_feature_identifiers','ExtendedProcessorFeatureIdentifiers',['(0x8000_0001, 0)']),
('l1','get_l1_cache_and_tlb_info','L1CacheTlbInfo',['(0x8000_0005, 0)']),
('l2_l3','get_l2_l3_cache_and_tlb_info','L2And3CacheTlbInfo',['(0x8000_0006, 0)']),
('apm','get_advanced_power_mgmt_info','ApmInfo',['(0x8000_0007, 0)']),
('capacity','get_processor_capacity_feature_info','ProcessorCapacityAndFeatureInfo',['(0x8000_0008, 0)']),
('svm','get_svm_info','SvmFeatures',['(0x8000_0001, 0)','(0x8000_000A, 0)']),
('tlb_1gb','get_tlb_1gb_page_info','Tlb1gbPageInfo',['(0x8000_0019, 0)']),
('perf_opt','get_performance_optimization_info','PerformanceOptimizationInfo',['(0x8000_001A, 0)']),
('ibs','get_instruction_based_sampling_capabilities','InstructionBasedSamplingCapabilities',['(0x8000_001B, 0)']),
('processor_topology','get_processor_topology_info','ProcessorTopologyInfo',['(0x8000_001E, 0)']),
('memory_encryption','get_memory_encryption_info','MemoryEncryptionInfo',['(0x8000_001F, 0)']),
('efi2','get_extended_feature_identification_2','ExtendedFeatureIdentification2',['(0x8000_0021, 0)']),
('perfmon_debug','get_extended_performance_monitoring_and_debug','ExtendedPerformanceMonitoringDebug',['(0x8000_0022, 0)']),
('mkmem','get_multi_key_encrypted_memory_capabilities','MultiKeyEncryptedMemoryCapabilities',['(0x8000_0023, 0)']),
]
o='''//! C07: no query, accessor or iterator step panics, overflows or touches memory
//! it does not own, whatever the registers. The obligations are the side
//! conditions the verifier generates inside the crate's own code.
use crate::core_::*;
use crate::*;
use raw_cpuid::*;

contracts! { REG;
'''
for n,g,t,k in simple:
    o+=f'''    fn c07_{n}() {{ with_answer!([{', '.join(k)}], m, f = {g}, {{
        {touch(t,'f')}
    }}); }}
'''
def seq(n,keys,g,body,unwind=None):
    u=f'    #[unwind({unwind})]\n' if unwind else ''
    return u+f'''    fn c07_{n}() {{ with_answer!([{keys}], m, f = {g}, {{
        {body}
    }}); }}
'''
o+=seq('rdt_monitoring','(0xF, 0), (0xF, 1)','get_rdt_monitoring_info',touch('RdtMonitoringInfo','f',('l3_monitoring',))+'\n        if let Some(x) = f.l3_monitoring() { '+touch('L3MonitoringInfo','x')+' }')
o+=seq('rdt_allocation','(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)','get_rdt_allocation_info',touch('RdtAllocationInfo','f',('l3_cat','l2_cat','memory_bandwidth_allocation'))+'\n        if let Some(x) = f.l3_cat() { '+touch('L3CatInfo','x')+' }'
 +'\n        if let Some(x) = f.l2_cat() { '+touch('L2CatInfo','x')+' }'+'\n        if let Some(x) = f.memory_bandwidth_allocation() { '+touch('MemBwAllocationInfo','x')+' }')
o+=seq('pqos','(0x8000_0020, 0), (0x8000_0020, 1), (0x8000_0020, 2), (0x8000_0020, 3), (0x8000_0020, 5)','get_pqos_extended_feature_info',touch('PqosExtendedFeatureInfo','f')
 +'\n        if let Some(x) = f.get_l3_memory_bandwidth_enforcement_info() { '+touch('L3MemoryBandwidthEnforcementInformation','x')+' }'
 +'\n        if let Some(x) = f.get_l3_slow_memory_bandwidth_enforcement_info() { '+touch('L3MemoryBandwidthEnforcementInformation','x')+' }'
 +'\n        if let Some(x) = f.get_bandwidth_monitoring_event_counters_info() { '+touch('BandwidthMonitoringEventCounters','x')+' }'
 +'\n        if let Some(x) = f.get_assignable_bandwidth_monitoring_counters_info() { '+touch('AssignableBandwidthMonitoringCounterInfo','x')+' }')
o+=seq('cache_parameters','(4, 0), (4, 1), (0x8000_001D, 0), (0x8000_001D, 1)','get_cache_parameters','let mut f = f;\n        let _ = f.clone();\n        while_some!(f, x, { '+touch('CacheParameter','x')+' });')
for n,g,l in [('topology','get_extended_topology_info','0xB'),('topology_v2','get_extended_topology_info_v2','0x1F')]:
    o+=seq(n,f'({l}, 0), ({l}, 1)',g,'let mut f = f;\n        while_some!(f, x, { '+touch('ExtendedTopologyLevel','x')+' });')
o+=seq('cpu_topology','(0x8000_0026, 0), (0x8000_0026, 1)','get_extended_cpu_topology','let mut f = f;\n        while_some!(f, x, { '+touch('ExtendedCpuTopologyLevel','x')+' });')
o+=seq('xstate','(0xD, 0), (0xD, 1), (0xD, 2)','get_extended_state_info',touch('ExtendedStateInfo','f',('iter',))+'\n        let mut i = f.iter();\n        if let Some(x) = i.next() { '+touch('ExtendedState','x')+' }',34)
o+=seq('sgx','(7, 0), (0x12, 0), (0x12, 1), (0x12, 2), (0x12, 3)','get_sgx_info',touch('SgxInfo','f',('iter',))+'\n        let mut i = f.iter();\n        while_some!(i, x, { let SgxSectionInfo::Epc(x) = x; '+touch('EpcSection','x')+' });')
o+=seq('soc','(0x17, 0), (0x17, 1), (0x17, 2), (0x17, 3), (0x17, 4), (0x17, 5)','get_soc_vendor_info',touch('SoCVendorInfo','f',('get_vendor_brand','get_vendor_attributes'))+'\n        if let Some(x) = f.get_vendor_brand() { '+touch('SoCVendorBrand','x')+' }'
 '\n        if let Some(mut i) = f.get_vendor_attributes() { while_some!(i, x, { let _ = x; }); }',50)
o+=seq('brand_string','(0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0)','get_processor_brand_string',touch('ProcessorBrandString','f'),50)
o+='''    #[unwind(120)]
    fn c07_cache_info() { with_answer!([(2, 0)], m, f = get_cache_info, {
        let mut f = f;
        if let Some(x) = f.next() { let _ = x.desc(); }
    }); }
    fn c07_dat() {
        let m = machine([L0, X0, (0x18, 0), (0x18, 1), (0x18, 2)]);
        // Bounds the inner search loop only; the unbounded statement is C12's.
        assume(m.get(0x18, 0).eax <= 2);
        if let Some(mut f) = open(&m).get_deterministic_address_translation_info() {
            reach!(true, "answers");
            while_some!(f, x, { '''+touch('DatInfo','x')+''' });
        }
    }
    // A last sub-leaf index of u32::MAX does not overflow the walk (first item).
    fn c07_dat_unbounded_max() {
        let m = machine([L0, X0, (0x18, 0)]);
        assume(bits(m.get(0x18, 0).edx, 0, 4) != 0);
        if let Some(mut f) = open(&m).get_deterministic_address_translation_info() {
            reach!(true, "answers");
            let _ = f.next();
        }
    }
    fn c07_reader() {
        let m = machine([L0, X0]);
        let c = open(&m);
        let _ = c.clone();
        let r = any_res();
        ck!(r.all_zero() == (r.eax | r.ebx | r.ecx | r.edx == 0), "CpuIdResult::all_zero iff every register is zero");
        reach!(r.all_zero(), "all zero");
    }
}
'''
open('/verif/harness/src/total.rs','w').write(o)
