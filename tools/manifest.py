import json
notes={
"C01":"Seeded search over schedules of open/next/drop/resume steps of several live parse iterations, with yielded trees edited by the caller; every yielded tree is judged by an independent derivation enumerator and every order by a solo run. Trusts the enumerator and the notation lowering in the model.",
"C02":"Seeded search over pairs of environments (hash seeds and quality, heap and stack placement, pid, clock and clock jumps, entropy or blackout, prior history, grammars edited in place at one address); all observable results must be equal, and every 97th run is executed in two processes. Trusts the seams to be the only environment the code reads; addresses of statics are not varied.",
"C03":"Seeded search over histories of seeded generations and bursts of direct draws, re-executed interleaved, on other threads, with moved grammars and other environments; outcomes and RNG positions must be equal.",
"C04":"Seeded search over strategy choices, refusals, panics and callback verdicts, checked call by call against a reference machine of the documented generation loop.",
"C05":"Seeded search over panics of strategies, callbacks, sinks and writers at drawn points (1-40 per run); every operation, iteration, tree and grammar afterwards is compared with an undisturbed run. Panics inside the allocator (out of memory aborts in Rust) are not tried.",
"C06":"Seeded search over depth-bounded choice histories under drawn random streams; each choice checked against the rule text.",
"C07":"Seeded search over coverage-guided choice histories with moved and reloaded grammars and faults, checked against a model of the seen set.",
"C08":"Seeded search over weight histories and random streams; impossible picks are violations, proportions tested with error rates below 1e-9 per test.",
"C09":"Seeded search over entropy streams, outages and call orders; repeated or predictable sentences are violations.",
"C10":"Seeded search over sink failures (every write and byte position class), partial delivery, panics, reentrancy and interleaving; oracle is an independent renderer.",
"C11":"Seeded search over thread interleavings (2-8 threads) under a baton scheduler preempting at every basic block, load and store of the library as well as allocations, hashes, seam calls and futex waits; oracle is the solo run plus the model. Sequentially consistent: weak-memory effects are not simulated; code of dependencies is preempted only at allocations, hashes and system calls.",
"C12":"Seeded search over disk faults, crash points, truncations and byte damage on a simulated disk, JSON through serde_json and text through Display/FromStr. Other serde formats are not tried.",
"C13":"Seeded search over adversarial prefixes of choices and rejections and dead branches; bounded liveness after they stop.",
"C14":"Seeded search over subscriber behaviour and interleavings in a build with the tracing feature, compared with no subscriber and with a build without the feature.",
"C15":"Seeded search over whole fault histories repeated 12-160 times in one process; live heap blocks and bytes (exact, from the simulated allocator) and executed basic blocks per round may not keep growing. Growth that stops (caches, buffers reaching a fixed size) is allowed.",
"C16":"Seeded search over schedules of several iterations over inputs with endlessly many derivations; derivations that go round at most 0-4 times, enumerated by the model, must turn up within a bounded number of steps (about 200 times what a first-in first-out order needs), and the iteration may not end or repeat. Grammars whose awaited derivations need more than 30 000 partial ones are left out.",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na={
"C20":"A pure function of the text: no schedule, clock, I/O, fault or shared state takes part, so simulation would only be input generation. (Text is still one of the ways the simulated workloads build their grammars.)",
"C21":"A pure function of the text; nothing for a simulator to schedule or fail.",
"C22":"A pure function of the grammar; only its independence of hash seeds depends on the environment, and that is C02.",
"C23":"Plain edits of vectors owned by one caller: no concurrency, time, I/O or fault takes part.",
"C24":"A pure function from string to string. (Charts written to failing sinks are C10.)",
"C25":"A compile-time property of macro invocations; nothing runs that a simulator could schedule.",
}
m={"version":1,"setup_cmd":"./check.sh build",
"checks":[{"property":p["id"],"quick_cmd":f"./check.sh {p['id']}","thorough_cmd":f"./check.sh {p['id']} thorough","technique":"deterministic simulation with fault injection (seeded schedule and fault search)","level":"exploration","level_note":notes[p["id"]]} for p in props if p["id"] in notes],
"not_applicable":[{"property":p["id"],"reason":na[p["id"]]} for p in props if p["id"] in na],
"notes":"No hooks in /repo: every seam is a public trait or callback argument, the global allocator, a libc symbol, getrandom's custom backend or a patched foldhash crate inside /verif/sim. ./check.sh replay FILE re-executes a replay file."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
assert {p["id"] for p in props}==set(notes)|set(na)
