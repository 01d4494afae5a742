#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: component model over exact rings, quaternions, symbolic terms and whole-range machine integers",
 "C02": "property-based testing: exact round trip over the field GF(p^2), differential test against wider / independent float division",
 "C03": "property-based testing: differential test against hypot/atan2 in wider precision or an independent libm, metamorphic laws",
 "C04": "property-based testing: differential component-wise test against a stable reference root, sign and branch rules",
 "C05": "property-based testing: differential test against reference formulas, inverse and homomorphism laws",
 "C06": "property-based testing: differential component-wise test against reference formulas, metamorphic identities",
 "C07": "property-based testing: ulp-distance differential test against wider precision / an independent libm, special values",
 "C08": "property-based testing: differential test against native arithmetic over whole value ranges",
 "C09": "property-based testing: convolution model over exact rings and machine integers, all operator forms, size sweep",
 "C10": "property-based testing: power-sum model over exact (also non-commutative) rings, homomorphism laws, float error bound",
 "C11": "property-based testing: equality against trimmed coefficient lists, metamorphic pairs, equivalence laws",
 "C12": "property-based testing: ring laws through the generic Ring interface over nested ring types",
 "C13": "property-based testing: array model for every dimension of a list, exact rings, all operator forms",
 "C14": "property-based testing: entry-wise model for every shape of a grid, exact rings, all operator forms",
 "C15": "property-based testing: product model over a grid of shapes and non-commutative rings, algebraic laws",
 "C16": "property-based testing: table model of every constructor and view over an exhaustive sweep of shapes",
 "C17": "property-based testing: random expression trees against an eager table model with symbolic entries",
 "C18": "property-based testing: product model over an exhaustive sweep of shape triples, exact and non-commutative rings",
 "C19": "property-based testing: random expression trees against an eager list model with symbolic entries",
 "C20": "property-based testing: inner-product model over exact and non-commutative rings, sesquilinearity laws",
 "C21": "property-based testing: exhaustive shape pairs x operators x operand kinds, panic oracle, release profile",
 "C22": "property-based testing: index table model inside, panic oracle outside the shape, sweep of shapes",
 "C23": "stateful model-based testing: random update histories with clones against a table model",
 "C24": "property-based testing: call-recording closures in random expressions, invariant on the call history",
 "C25": "property-based testing: differential test static against dynamic types over a grid of shapes",
 "C26": "stateful property-based testing: monitored optimiser runs over generated random streams and weak orders",
 "C27": "stateful property-based testing: trial-step monitor over generated runs, coverage statistics of donors",
 "C28": "property-based testing: bounds, panic oracle for parameters, comparison budget, determinism over generated runs",
 "C29": "property-based testing: convergence of generated quadratic problems over generated random streams",
 "C30": "property-based testing: differential test against a double-precision formula, symmetry laws",
 "C31": "property-based testing: pairs with known equality for every type and a sweep of shapes, entries with an equality of their own",
 "C32": "property-based testing with fault injection: entries tracked by a registry, a panic injected at every entry operation in turn",
    "C33": "property-based testing: native operation per entry, products against sums of twice the precision, special values",
    "C34": "property-based testing: random sequences of calls repeated, reordered and run on several threads (metamorphic)",
    "C35": "property-based testing: elements that count operations, against the counts of the definition",
    "C36": "property-based testing: monitored runs related by scaling and by replayed comparisons (metamorphic)",
    "C37": "property-based testing: symmetry relations (metamorphic) over all float bit patterns",
    "C38": "property-based testing: generated operations under a counting allocator and on a small stack",
    "C39": "stateful model-based testing: random histories on pools of values against lists of components and coefficients",
    "C40": "property-based testing: one generated program over a ring and over its image under a homomorphism (metamorphic)",
    "C41": "property-based testing: double-double, dual, formal power series and complex scalars against identities and models",
    "C42": "property-based testing with fault injection: user code that calls the library or panics, against plain runs",
    "C43": "property-based testing: differential and metamorphic relations between structures that represent each other",
}
NOTE = "Search over generated cases (fixed seed from VERIF_SEED, deterministic), shrunk to a minimal replay file; nothing is proved beyond the cases explored. Trusts rustc, proptest and the oracle described in DESIGN.md."
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness/src/bin", i.lower() + ".rs")):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check uses the public interface of the crate."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
