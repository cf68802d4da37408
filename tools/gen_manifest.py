#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "stateful property-based testing of join/query histories against a label-array model; large adversarial join orders on a small thread stack",
 "P02": "stateful property-based testing against a sorted-multiset model",
 "P03": "property-based testing against a left-to-right fold, all ranges, idempotent non-commutative (band) operations",
 "P04": "stateful property-based testing against a plain array, exact and wrapping element types",
 "P05": "property-based testing against a scan of the prefix sums, non-monotone sums included",
 "P06": "stateful property-based testing against an array fold over commutative and non-commutative monoids",
 "P07": "property-based testing of both searches against a linear scan, every start position",
 "P08": "stateful model-based testing against a plain array over several action families, coverage-guided",
 "P09": "stateful model-based testing of both searches against a linear scan under pending updates",
 "P10": "property-based testing of structured graphs against Bellman-Ford in wide integers",
 "P11": "property-based testing of structured trees against parent-walking definitions",
 "P12": "property-based testing against an independent augmenting-path matching and a vertex-cover certificate; histories of edge additions",
 "P13": "property-based testing against an independent max-flow and min-cut certificate, adversarial networks, histories of edge additions",
 "P14": "property-based testing against the reachability closure",
 "P15": "stateful model-based testing on structured trees against a per-node array",
 "P16": "stateful model-based testing on structured trees against a per-node array",
 "P17": "property-based testing on structured pattern sets against naive search",
 "P18": "property-based testing plus bounded exhaustion against the quadratic definition",
 "P19": "property-based testing plus bounded exhaustion against the quadratic definition",
 "P20": "property-based testing plus exhaustion of the small types against wide-integer oracles",
 "P21": "property-based testing with planted solutions and brute force, 128-bit oracles",
 "P22": "exhaustion of small primes plus property-based testing against exact integer oracles",
 "P23": "differential property-based testing of every operator form against 128-bit arithmetic; small moduli exhausted",
 "P24": "stateful property-based testing of modulus histories against 128-bit arithmetic",
 "P25": "exhaustion of small moduli plus property-based testing against an independent extended Euclid",
 "P26": "exhaustion of the narrow types plus property-based testing of the wide ones against 128-bit residues",
 "P27": "exhaustion of all 2^31 non-negative inputs of the primality test against a sieve, property-based testing of primitive roots",
 "P28": "exhaustion of small domains plus boundary-biased property-based testing against 128-bit arithmetic",
 "P29": "exhaustion of all 32-bit inputs plus property-based testing of 64-bit ones",
 "P30": "stateful property-based testing of mixed reads over generated texts and chunked readers against a tokenizer model",
 "P31": "differential property-based testing of generated recursive bodies against plain recursion in two builds",
 "P32": "exhaustion of the 8-bit types plus property-based testing of the others against 128-bit arithmetic",
 "P33": "property-based cost monitoring: operation counts of instrumented element types on generated and adversarial histories against stated bounds",
 "P34": "generated programs compiled by rustc in both builds, output compared with the generator's prediction",
 "P35": "property-based cost monitoring: executed comparisons counted by compiler instrumentation on generated and adversarial inputs against complexity bounds",
 "P36": "stateful property-based testing of histories that mix valid calls with generated invalid ones, against models that ignore the invalid ones, in two builds",
 "P37": "property-based resource monitoring: bytes counted by the allocator over generated histories against stated bounds; leak check by repetition",
 "P38": "metamorphic property-based testing: transcripts of generated programs run alone, again, interleaved and in threads",
 "P39": "generated histories of all other checks replayed under AddressSanitizer and, smaller, under the Miri interpreter",
}
NOTE = {
 "P37": "Bounds carry constants about two to three times what the current code needs. Heap only, not stack. Searched, not proved.",
 "P38": "Thread schedules are whatever the machine makes of threads started together; a race that needs a rare overlap can be missed (Miri in P39 also looks for data races). Searched, not proved.",
 "P39": "Only undefined behaviour that AddressSanitizer, the standard library's precondition checks or Miri (Tree Borrows) report on the generated histories counts. One known finding is listed (recursive closures that own their state by move). Needs the nightly toolchain with Miri and its prebuilt sysroot.",
 "P27": "All 2^31 non-negative inputs and samples of the negative ones are decided for primality; primitive roots are sampled. Trusts the sieve.",
 "P31": "Searched, not proved. One known finding is listed (closures that own their state by move, optimised builds).",
 "P33": "Bounds carry generous constants, so a slowdown inside the stated order is not reported. Searched, not proved.",
 "P35": "Bounds carry constants about six times what the current code needs, so a slowdown inside the stated order is not reported; 128-bit comparisons are not counted. Searched, not proved.",
}
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
default = "Generated-input search against an independent oracle: no proof. Fixed case counts and a fixed seed, so runs repeat exactly; sizes and value ranges are in DESIGN.md and in the evidence file. Trusts the oracle in the harness and rustc."
m = {
 "version": 1,
 "setup_cmd": "bash -c 'DIR=$PWD; . ./env.sh; cd harness && cargo build --offline --quiet --profile release --bins && cargo build --offline --quiet --profile plain --bins'",
 "hooks": {
  "guard": "cfg(verif_hooks)",
  "enable": "harness/rustc-wrap.sh, set as RUSTC_WRAPPER by env.sh, passes --cfg verif_hooks when the harness builds /repo",
  "source_commits": ["6d924d110431539f984637382637cf439ee88377"],
 },
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./check.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
   "technique": T[p["id"]],
   "level": "exploration",
   "level_note": NOTE.get(p["id"], default),
 } for p in props if p["id"] in T],
 "not_applicable": [],
 "notes": "Known findings and repaired defects: known_findings.txt. Replay a failure with ./check.sh PNN --replay FILE.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
