#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TECH = {
    "C01": "differential runtime monitor: real union-find vs explicit set lists, online on every call",
    "C02": "differential runtime monitor: real Fenwick tree vs plain array, online on every call",
    "C03": "differential runtime monitor over free/hashed monoids vs sequential fold",
    "C04": "differential runtime monitor over free monoids with free actions vs element-wise array",
    "C05": "differential runtime monitor over idempotent operations vs fold",
    "C06": "differential runtime monitor: heap vs sorted multiset, online on every call",
    "C07": "runtime monitor with Bellman-Ford oracle and optimality certificates",
    "C08": "runtime monitor with reachability-closure and Kosaraju oracles",
    "C09": "runtime monitor with exhaustive/Hopcroft-Karp oracles and Koenig cover certificates",
    "C10": "runtime monitor with min-cut enumeration and Edmonds-Karp cut certificates",
    "C11": "differential runtime monitor vs walking up the tree",
    "C12": "differential runtime monitor vs per-vertex array",
    "C13": "differential runtime monitor vs exact integer arithmetic, two build profiles",
    "C14": "runtime monitor: multiplication back as certificate, refusal observed",
    "C15": "multi-threaded runtime monitor; Miri race detector over varied schedules; ThreadSanitizer (thorough)",
    "C16": "differential runtime monitor vs Pascal's triangle and direct products",
    "C17": "differential runtime monitor with divisor-scan and Bezout certificates, 8-bit types exhaustive",
    "C18": "runtime monitor: certificates against every congruence, brute force on small systems",
    "C19": "differential runtime monitor vs definitions and hashing",
    "C20": "differential runtime monitor vs naive multi-pattern search",
    "C21": "trace checker: generated token list vs tokens delivered",
    "C22": "trace checker: effect log of the closure vs the named function",
    "C23": "lifetime-ledger monitor, AddressSanitizer + LeakSanitizer, Miri (Tree Borrows, leak and race checks)",
    "C24": "twin-object runtime monitor around rejected calls, two build profiles",
    "C25": "online operation-count monitor with cut-off, CPU watchdog",
    "C26": "differential runtime monitor of hooked kernels vs sieve (all n < 2^31) and 128-bit arithmetic",
    "C27": "differential runtime monitor, 8-bit domains exhaustive",
    "C28": "captured-output trace checker of child processes in debug and release builds",
    "C29": "differential runtime monitor vs residue semantics",
    "C30": "differential runtime monitor: solo runs in fresh processes vs interleaved, nested, migrating and threaded runs; captured streams",
    "C31": "online allocation monitor (counting global allocator) against space bounds",
    "C32": "differential runtime monitor: one history on plain integers and on exotic element types",
}
NOTE = {
    "C15": "Observed executions only: native stress, Miri schedules by seed, TSan in the thorough tier. Trusts Miri and TSan to report races.",
    "C23": "Absence of sanitizer reports and ledger errors on the executed programs. Aliasing judged by Tree Borrows. One known finding (re-entrant FnMut with owned mutable state).",
    "C26": "is_prime is decided for every n < 2^31 (quick: the two builds share the range); the other kernels by wide sampling plus exhaustive small domains.",
}
DEF = "No divergence from an independent oracle on the executed cases, in builds with and without overflow checks; small domains exhaustively where evidence says so. Trusts the oracle and rustc."
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 tools/check_setup.py",
    hooks=dict(guard="cfg(rust_cp_verif)", enable='RUSTFLAGS="--cfg rust_cp_verif" (only the C26 check; all others use the public interface)', source_commits=[open(os.path.join(HERE, "hook_commit")).read().strip()]),
    checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json", technique=TECH[p["id"]], level="exploration", level_note=NOTE.get(p["id"], DEF)) for p in props],
    not_applicable=[],
)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
