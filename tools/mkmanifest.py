import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH={
"C01":"deterministic simulation: seeded edit/layout histories with failing layouts, hiding and tree moves against a rebuilt reference document",
"C02":"deterministic simulation with fault injection: layouts cut short or disturbed at seeded callbacks, statements and recursion depths, then compared with a rebuilt document",
"C03":"deterministic simulation with fault injection: full state snapshots around completed, failed and interrupted layouts",
"C04":"deterministic simulation: seeded thread scheduler with stalls, interrupts and nested layouts, per-thread logs against solo runs",
"C05":"deterministic simulation: seeded histories of changes with arbitrary prior marks, marks checked against a reference model after every step",
"C06":"deterministic simulation: seeded operation histories with rejected values against a dictionary reference model",
"C07":"deterministic simulation with fault injection: rejected values at seeded positions in seeded histories, whole-state comparison",
"C08":"deterministic simulation with fault injection: families of copies, in-place edits of shared collections and interrupts against independent models",
"C09":"deterministic simulation: long seeded soaks with failures and interrupts, reachable-object and step counts",
"C10":"deterministic simulation: seeded layouts, tree edits and box moves, positional invariants checked after every step",
"C11":"deterministic simulation: discrete-event network (delay, loss, duplication, reordering, partitions) between update streams and replicas",
"C12":"deterministic simulation: the same seeded program in processes with different hash seeds, optimisation, gc and prior use, log equality",
"C13":"deterministic simulation with fault injection: style operations interrupted at seeded statements or sub-expressions, then repeated, against a reference model",
"C14":"deterministic simulation: seeded hide/edit/layout/show histories against reference documents that were never hidden or lack the hidden nodes",
"C15":"deterministic simulation: seeded thread scheduler over writers of disjoint properties or nodes, read-back and final-state checks",
"C16":"deterministic simulation with fault injection: step counts of seeded histories on documents scaled 1x, 2x, 4x, with failed and interrupted layouts before",
"C17":"deterministic simulation with fault injection: one seeded history in two worlds, with and without observations inserted between, inside, beside and broken off",
"C18":"deterministic simulation: seeded thread scheduler over readers and writers of one declaration, reads checked as atomic registers",
"C19":"deterministic simulation with fault injection: errors of 20 classes raised by seeded host callbacks or injected at seeded points must come out unchanged",
}
NOTE="Seeded search over simulated runs of the real library (fresh import of /repo/src per world); evidence, not proof. Hand-overs and interrupts happen at statement or sub-expression boundaries of library code; host nodes, displays and locks are stand-ins."
NA={
"C20":"a pure function of styles and containing width: no schedule, clock, fault or interleaving for it to depend on",
"C21":"a pure function of a length and its context; nothing to schedule or fault",
"C22":"a pure function of the notation parsed",
"C23":"a pure function of the shorthand value parsed",
"C24":"a pure function of the block tree; history and fault dependence of the same geometry is C01, C02 and C14",
"C25":"a pure function of the offered value; what a rejection leaves behind is C07",
}
m={"version":1,"setup_cmd":"python3 tools/selftest.py",
 "checks":[{"property":p,"quick_cmd":f"python3 check.py {p} --tier quick","thorough_cmd":f"python3 check.py {p} --tier thorough",
  "technique":TECH[p],"level":"exploration","level_note":NOTE} for p in TECH],
 "not_applicable":[{"property":p,"reason":r} for p,r in NA.items()],
 "notes":"No hooks in /repo: the library is imported in memory from the working tree, with points inserted by the harness where a simulated thread or interrupt needs them. Fixes of defects found are listed in known_findings.txt. Replay: python3 replay.py <file>."}
assert {p['id'] for p in props}=={*TECH,*NA}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
