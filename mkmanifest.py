#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
T={
"C01":("invariant over generated grammar/input pairs (tape-shrunk PBT)","every tree is checked node by node against the grammar it was parsed with"),
"C02":("differential PBT against two reference recognisers","one known finding (rejecting an input under a self-deriving nonterminal does not end) is probed separately"),
"C03":("differential PBT against exhaustive enumeration of derivations","bounded to cases with at most a few hundred derivations"),
"C04":("invariant and completeness PBT on cyclic grammars","validity and distinctness of the first trees, delivery of the cycle-free ones within 1500 trees"),
"C05":("stateful PBT: histories of interleaved iterators against a fresh parser","sequences are compared tree by tree"),
"C06":("differential PBT against the definition of validity","both verdicts and the named nonterminal"),
"C07":("round-trip PBT: spell with random layout, read, compare","trusts the spelling generator, which shares no code with the library"),
"C08":("grammar-aware mutation fuzzing against a reference reader","nesting up to 500 on a 512 MB stack; one known finding (stack depth) is probed separately"),
"C09":("differential PBT against an independent lowering of groups","shape first, language on sampled sentences otherwise"),
"C10":("metamorphic PBT: two notations of one grammar","explicit and detected readings"),
"C11":("round-trip PBT: print, read, compare","domain as in the statement"),
"C12":("PBT: recorded choices replayed, sentences checked by reference recogniser","strategies, seeds and call sequences generated"),
"C13":("PBT against a productivity fixpoint","two known findings are probed separately; runs are cut off after a number of choices where the grammar may grow without bound"),
"C14":("metamorphic PBT over sequences of seeded calls","plus exact frequency bounds (false alarm below 1e-9)"),
"C15":("model-based PBT: scripted strategy and callback against a reference interpreter","questions, callbacks and result compared"),
"C16":("invariant PBT over choices and whole runs","reachability of all alternatives below the bound by many draws (false alarm below 1e-9)"),
"C17":("stateful PBT with a per-production coverage model","grammars are dropped and reallocated inside histories"),
"C18":("statistical PBT with concentration bounds","false alarm probability below 1e-9 per run"),
"C19":("differential PBT against an independent drawing","parsed and edited trees"),
"C20":("round-trip PBT: decode the flowchart and compare","labels over all of Unicode by blocks"),
"C21":("stateful PBT against a nested-list model","order after remove_production is left open apart from the start rule"),
"C22":("round-trip PBT through JSON, CBOR and bincode","values and behaviour compared"),
"C23":("generated programs: macro invocations compiled and compared with the model","compiled with a raised recursion_limit"),
"C24":("differential PBT across builds","five feature sets and profiles, one with a trace subscriber"),
"C25":("differential PBT over user-defined formats","ten formats, against spelling and reference reader"),
}
checks=[{"property":k,"quick_cmd":f"./check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {k}",
 "technique":"property-based testing: "+v[0],"level":"exploration","level_note":"Searches generated cases; no proof. "+v[1][0].upper()+v[1][1:]+"."} for k,v in T.items()]
json.dump({"version":1,"setup_cmd":"./check.sh --build","checks":checks,"not_applicable":[],
 "notes":"No hooks: every check uses the public API. Known findings and repaired defects: known_findings.txt."},open("MANIFEST.json","w"),indent=1)
