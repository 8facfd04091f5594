import json,sys
conc = sys.argv[1:] # claimed conc props
T="deterministic simulation with fault injection"
notes={
"C04":"seeded search over operation histories of sparse maps (heap/array) with injected callback panics, allocation failures and abandoned iterators, checked step by step against a vector model",
"C05":"seeded search over operation histories of total maps with injected faults, checked against a vector model",
"C06":"seeded search over operation histories of the three set types with injected faults, checked against a vector model",
"C07":"seeded sessions over every iterator type interleaving both ends, adapters, copies, abandonment and key-construction panics, checked against a list model that tracks the at-most-one-step loss",
"C08":"a ledger of every live value and key over faulty histories (panics in callbacks and destructors, failed allocations, forgotten and abandoned iterators); part of the runs under AddressSanitizer",
"C09":"constructions and whole-map transformations cut short at chosen calls; call counts, arguments, results and sources checked",
"C10":"an allocator that fails at a chosen call or for a whole operation; which operations may allocate, unchanged contents and success on retry are checked",
"C12":"key implementations answering out-of-range, changing or panicking ordinals at random; liveness tokens on every key and value, checked and unchecked builds, AddressSanitizer build",
"C13":"formatting into writers failing at a chosen byte, elements failing or panicking at a chosen call; compared with the standard collections' text",
"C14":"decoding and encoding nested composite keys with components and allocations failing at a chosen call; ledger of components",
"C01":"caller threads under a scheduler deciding every atomic access, with stalls and conversion panics; histories checked for linearizability against a register",
"C02":"caller threads over a simulated weak memory (per-location histories and views) driven by the orderings the code actually issues; executions checked against the orderings the caller requested",
"C03":"threads stopped forever at arbitrary accesses, re-entrant calls and conversion panics; every other operation must finish within a step budget",
"C11":"concurrent readers and split writers under a scheduler deciding every access to shared data; results against the sequential model and a happens-before race detector",
}
lv="Exploration: no violation in the sampled runs. Trusts the reference models, the instrumented key/value types and the scheduler; a clean batch is evidence, not proof."
checks=[]
for p in sorted(notes):
    if p in ("C01","C02","C03","C11") and p not in conc: continue
    checks.append({"property":p,"quick_cmd":f"python3 check.py check {p}","thorough_cmd":f"VERIF_TIER=thorough python3 check.py check {p}","technique":T+": "+notes[p],"level":"exploration","level_note":lv})
na=[{"property":p,"reason":"check under construction"} for p in ("C01","C02","C03","C11") if p not in conc]
na+=[
{"property":"C15","reason":"a pure function of its input (value to number and back): no schedule, fault, I/O or second party for a simulator to decide. The simulated worlds only rely on it for the key types they use."},
{"property":"C16","reason":"a pure function of two values: nothing in it depends on a schedule, clock, fault or interleaving."},
{"property":"C17","reason":"decided by the compiler expanding a macro: no run-time behaviour, hence no schedule or fault to simulate."},
{"property":"C18","reason":"about programs that must not compile: there is no execution to simulate."}]
m={"version":1,"setup_cmd":"python3 check.py setup","checks":checks,"not_applicable":na,
"notes":"Replay a failure with: python3 check.py replay <file>. Determinism self-test: python3 check.py selftest."}
if conc:
    import subprocess
    h=subprocess.run(["git","-C","/repo","log","--format=%H","--grep","^hook"],capture_output=True,text=True).stdout.split()
    m["hooks"]={"guard":"--cfg ordinal_map_sim","enable":"RUSTFLAGS --cfg ordinal_map_sim in the conc build (check.py, VARIANTS)","source_commits":h}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
