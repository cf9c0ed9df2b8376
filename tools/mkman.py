import json
REF="static dataflow analysis of the compiler's MIR: guarded symbolic value-flow summaries (result, final state, effects, failure conditions) of the anchored functions, decided against reviewed reference summaries"
TECH={
 "C17": REF+"; plus a query over the serialisation and command-line code for names agreed across process boundaries",
 "C25": "type checking of the front end against bindings generated from the serialisation code's MIR and the interpreter's syntax tree, plus variant-dispatch and attribute queries over the typed front-end syntax tree",
}
NOTE="Abstract interpretation over all paths of the anchored functions (every input and history, loops summarised); library calls are uninterpreted terms. A difference from the reviewed reference that the analysis cannot resolve is reported as UNDECIDED and stays quiet; properties of rustc/Polonius internals are assumed."
LNOTE={"C25":"Types and names of both sides are compared for every read in the front end; shapes the reader cannot recognise become `any` and are reported as UNDECIDED. Rust crates outside the repository (character ranges) are described by hand; the interpreter's types come from its source text because it cannot be compiled here."}
NA={
 "C26":"The interpreter crate feature needs Miri's rustc_private libraries that are not installed here, so its type-checked program and MIR are unavailable; and what a trace holds (values, step order, the end) depends on run-time executions of arbitrary user programs, which no sound static argument in reach can bound. Its emitted types are still checked under C25.",
 "C27":"Quantifies over the agreement of the tool's answers with the Rust compiler's borrow checker for every user program: that depends on Polonius and rustc's internal fact generation, outside this repository, and on run-time datalog fixpoints; no static argument over this source in reach settles it. The local parts (requirement tables, equations, facts) are C01-C08.",
 "C28":"Byte-for-byte repeatability depends on hash iteration order and on the order in which threads and child processes finish at run time; where the iteration order of an unordered collection reaches output is visible statically, but whether order-insensitive consumers follow (JavaScript, mdBook) is not decidable here, and the current tree does let HashMap order reach JSON, harmlessly.",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"python3 engine/facts.py","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in NA: m["not_applicable"].append({"property":i,"reason":NA[i]})
    else: m["checks"].append({"property":i,"quick_cmd":f"python3 engine/run.py {i} --tier quick","thorough_cmd":f"python3 engine/run.py {i} --tier thorough","technique":TECH.get(i,REF+" and direct rules"),"level":"other","level_note":LNOTE.get(i,NOTE)})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
