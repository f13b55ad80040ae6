#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json (run by hand after editing)."""
import json,subprocess,sys
E="exhaustive enumeration of executions of the real library"
T={
"C01":("fault_enumeration",E+" (bounded product of data, keys, comments, storage routes)","keys, data lengths, comments and routes from finite boundary alphabets"),
"C02":("fault_enumeration",E+" (every edit of a bounded edit alphabet at every position)","single and paired edits of bounded data"),
"C03":("fault_enumeration",E+" (every single mutation, representation change and splice of a signature)","mutations up to the stated bound of fixture signatures"),
"C04":("fault_enumeration",E+" (every comment edit and swap)","edits of fixture comments"),
"C05":("fault_enumeration",E+" (every bit of key and identifier, all pairs)","fixture keys and their one- and two-bit neighbours"),
"C06":("model_checking","explicit enumeration of the whole policy state space on the real library, against a reference model","every algorithm identifier is tried; data and keys are fixtures"),
"C07":("fault_enumeration",E+" (grammar-enumerated texts against a reference parser)","texts over a bounded token alphabet"),
"C08":("fault_enumeration",E+" (stored key forms against a reference parser)","keys and damages from finite alphabets"),
"C09":("model_checking",E+" (all ordered password pairs and protection routes) with the key-derivation function idealised","passwords from a boundary alphabet; scrypt seen as a random function (real scrypt in some cases)"),
"C10":("fault_enumeration",E+" (every bit, character, truncation and line fault of stored keys)","damages up to the stated bound of fixture keys"),
"C11":("fault_enumeration",E+" (grammar-enumerated hostile inputs with panic, abort and hang detection; overflow checks on)","inputs over bounded alphabets"),
"C12":("fault_enumeration","stateless model checking of the real library under a scripted data source: every schedule of short, interrupted and failing reads up to a deviation bound","deviation bound, finite data lengths"),
"C13":("fault_enumeration","stateless model checking of the real library under scripted data source and output descriptors","deviation bound; data source returns the same bytes when re-read"),
"C14":("fault_enumeration","stateless model checking of the real library under scripted writers: every schedule of short, interrupted and failing writes and flushes up to a deviation bound","deviation bound"),
"C15":("fault_enumeration","stateless model checking of the real library under a scripted random source: every failing request, every single bit","finite set of base random streams"),
"C16":("model_checking",E+" (all pairs of signing calls under adversarial random sources), invariant on issued signatures","finite message, key and generator alphabets"),
"C17":("model_checking","stateless model checking of the real library under a scripted typist: every prompt answer sequence over an alphabet","answers from a boundary alphabet"),
"C18":("model_checking",E+" (grid of derivation settings) with the derivation observed, against a reference computation of the parameters","settings from a boundary grid"),
"C19":("model_checking","systematic concurrency testing of the real library: all interleavings at I/O points up to a preemption bound, all nestings and all operation sequences up to a depth, against results computed alone","scheduling points are the I/O, random, derivation and output calls; preemption bound"),
"C20":("translation_validation",E+" against an independent reference implementation, in both directions","data, keys, comments from finite alphabets; all lengths up to a bound"),
"C21":("fault_enumeration",E+" (every bit of the supplied key)","fixture keys and neighbours"),
"C22":("model_checking","explicit-state exploration of all histories of storing, opening, converting and copying up to a depth, against a model of the key's state","history depth bound"),
"C23":("fault_enumeration",E+" (all small-order and non-canonical encodings, forgeries that need no secret key)","all 14 encodings of small-order points; bounded sets of off-curve encodings"),
"C24":("model_checking",E+" (operands over limb and carry boundary alphabets) against an exact reference","operands from boundary alphabets"),
"C25":("fault_enumeration",E+" (comments and identifiers over an alphabet, every code point class)","comments over a bounded alphabet"),
"C26":("fault_enumeration",E+" (all one- and two-bit differences, all loading routes)","fixture keys and neighbours"),
"C27":("model_checking",E+" (operations x lengths x chunkings x verdicts) with the data source counting what it delivers and the allocator keeping the peak","lengths up to 16 MiB (quick) or 2 GiB (thorough); fixed room for buffers of 4 MiB"),
"C28":("model_checking","self-composition by exhaustive enumeration: the recorded course (basic blocks and addresses of the optimised intermediate code; instruction addresses and data addresses of the machine code of several builds) of every execution over an enumerated set of secrets is compared with that of every other","a finite set of secrets (every bit, byte values, runs, pseudorandom); machine code for this processor at the listed optimisation levels; scrypt itself is outside"),
"C29":("model_checking",E+" (operations x environments x preceding operations x sizes) with all system calls and environment look-ups recorded and judged against what the operation may do","58 operations with fixture inputs, 4 environments, all ordered pairs of operations, doubling sizes; calls that only manage memory, locks or time are disregarded"),
}
have=subprocess.run(["/verif/target/release/mc","list"],capture_output=True,text=True,check=True).stdout.split()
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: the library is observed through its public API, with its environment (random source, password prompt, scrypt, data source, writers, standard streams) replaced or scripted. Recorded and repaired defects: KNOWN_FINDINGS.txt."}
for p in props:
    i=p["id"]; lv,tech,note=T[i]
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":tech,"level":lv,
          "level_note":"Holds for every enumerated execution; bounds: "+note+". Trusted: the reference model (self-tested), the stand-ins in stubs/, the compiler."})
    else: m["not_applicable"].append({"property":i,"reason":"the check is not built yet"})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
