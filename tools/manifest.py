import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C22":"The text is written by println! and the termimad crate to standard output; Kani does not get through core::fmt and the layout code of termimad on symbolic values, the module has no intermediate result that a contract could speak about, and no obligation could be generated from the code that runs."}
loop="Unbounded: the first steps from the public API (base case) and a step contract from every iterator state (induction), discharged by Kani/CBMC; "
notes={
"C01":"Loop-free harnesses over every value of the registers involved: complete for the vendor and maximum-leaf gates.",
"C02":"Every read of a query is checked against its documented frame for all register values; iterator frames cover the first two steps here and any step in C09 to C13.",
"C03":"Loop-free harnesses over every register value: complete.","C04":"Loop-free harnesses over every register value: complete. Four known findings (1 GB TLB sizes truncated to u8) are listed and stay undischarged.",
"C05":"Loop-free harnesses over every register value: complete.","C06":"Loop-free harnesses over every register value and vendor: complete.",
"C07":"Side conditions (panic, overflow, shift, index, pointer) of the real code for all inputs; from_utf8 and trim are replaced by contracts (proved in C14). Iterator steps from every state.",
"C08":"Unbounded in register values: step contract from every walk position with an in-place loop contract on the table scan, plus the table checked against the manual. If the loop contract can no longer be placed (loop rewritten), a native bounded stand-in (two adjacent arbitrary bytes) decides and the run is labelled bounded. 0xC3 is a known finding.",
"C09":loop+"every counter value.","C10":loop+"every counter value.",
"C11":loop+"the components are finite, so base and steps cover every walk.",
"C12":loop+"the search loop carries an in-place loop contract; fallback is the bounded public walk (maximum sub-leaf at most 3).",
"C13":loop+"every counter value.",
"C14":"Complete over all register values given the contracts of core::str::from_utf8 and str::trim, which are proved for texts of up to 48 bytes on the text of library/core, extracted on every run (loop invariants added, slice::Iter<u8> and trait dispatch replaced); the linked functions are checked for short texts only (bounded).",
"C15":"Loop-free harnesses over every register value: complete; the division in tsc_frequency is decided by Z3 (c15_smt_*; if undecided after a rewrite, generated inputs stand in and the run is labelled so).","C16":"Loop-free harnesses over every register value: complete.",
"C17":"Loop-free harnesses over every register value: complete.","C18":"Loop-free harnesses over every register value: complete.",
"C19":"Complete over all register values and rotations of the field order, for two minimal data formats (positional, self-describing) in the harness; real format crates are only run natively when a counterexample is replayed.",
"C21":"Complete over every leaf, sub-leaf and register value given the contract of the intrinsic __cpuid_count (some function of its two arguments); that it executes the instruction is trusted. x86_64 only.",
"C20":"core::fmt's DebugStruct::field/finish and DebugList::entry/finish are replaced by contracts that record the field name and the value handed over, or the listed items; how core::fmt then prints a value is trusted. tsc_frequency's shown value for EAX <= 1 and EBX <= 255 only; SGX without EPC sections; lists of at most two items, the leaf 2 list for two fixed descriptors (bounded); CpuId's own Debug and the one of ProcessorBrandString are left out. A changed implementation that the recording cannot follow is decided by generated inputs (bounded, labelled)."}
tech="contract-based deductive verification with Kani (CBMC): postconditions on the real code over fully symbolic CPUID registers"
tl={"C08":"; Kani loop contract in place","C12":"; Kani loop contract in place, inductive step contracts","C01":"; in-place Kani function contracts","C03":"; in-place Kani function contracts","C04":"; in-place Kani function contracts","C16":"; in-place Kani function contracts","C14":"; loop invariants on the extracted text of library/core","C09":"; inductive step contracts","C10":"; inductive step contracts","C11":"; inductive step contracts","C13":"; inductive step contracts"}
m={"version":1,"setup_cmd":"cargo kani --version && cargo metadata --offline --format-version 1 --manifest-path harness/Cargo.toml > /dev/null",
"hooks":{"guard":"cfg(verif)","enable":"RUSTFLAGS='--cfg verif' (check.py sets it for the hooked contracts; with --cfg contracts also the in-place function contracts; the public contracts build without either)",
 "source_commits":[h for h,s in (l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%H %s'],text=True).splitlines()) if s.startswith('verif:')]},
"checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in NA: m["not_applicable"].append({"property":i,"reason":NA[i]}); continue
    m["checks"].append({"property":i,"quick_cmd":f"python3 check.py {i} --tier quick","thorough_cmd":f"python3 check.py {i} --tier thorough",
      "technique":tech+tl.get(i,""),"level":"proof","level_note":notes[i]+" Trusts Kani/CBMC and the specification tables in harness/src."})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
