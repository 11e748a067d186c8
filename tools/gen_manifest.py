"""Writes MANIFEST.json from the property modules present under harness/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBSTANCE = {
    "P01": "closed-form cdf at 50 digits, face/margin laws, Frechet/monotonicity/permutation relations",
    "P02": "exact power-series mixed derivative, invalid-row batches, pdf integrated against cdf",
    "P03": "exact generators, derivatives, Pickands function, Stirling-sum coefficients, inverse and monotone laws",
    "P04": "closed forms at 50 digits, quadrature of the copula's own cdf, inversion round trips, numerical derivatives",
    "P05": "distribution tests of drawn samples against the exact cdf (false-alarm bound 1e-9 per test), determinism",
    "P06": "independent density formula, multivariate normal cdf quadrature, permutation and limit relations",
    "P07": "model-based operation sequences against a plain matrix model",
    "P08": "closed forms, numerical derivatives, round trips, numeric tail probabilities",
    "P09": "distribution tests of drawn samples against closed forms (false-alarm bound 1e-9 per test), determinism",
    "P10": "likelihood of the reference density around the reported optimum; rank-invariance; summaries",
    "P11": "independent rank correlations and inversions; monotone-transformation relation",
    "P12": "rank counting model, monotone/permutation relations, container preservation",
    "P13": "independent linear algebra, triangle enumeration, inverse laws",
    "P14": "defining sum evaluated naively, monotonicity, reconfiguration equivalence",
    "P15": "mixed derivative of the naive beta cdf, row membership and frequencies, order-statistics model",
    "P16": "Sklar recomposition from scipy margins and the inner copula",
    "P17": "separate reference fits of margins and inner copula",
    "P18": "round trips between representations, malformed inputs",
    "P19": "weighted normal formulas, inversion, sample distribution tests",
    "P20": "reference EM update, partition check of k-means, likelihood comparison",
    "P21": "naive pairwise correlations under each row policy",
    "P22": "naive statistic, invariances, p-value lattice and exact replication, level and power at extreme thresholds",
    "P23": "naive statistic, invariances, p-value lattice, level and power at extreme thresholds",
    "P24": "naive statistic with independent refit, p-value lattice, level and power at extreme thresholds",
    "P25": "50-digit mpmath values across branches, functional equations, shape/thread independence",
    "P26": "exact integer recurrences and mpmath gamma ratios",
    "P27": "50-digit log-space reference, exact polynomials, bracketing relation, dictionary model",
    "P28": "independent density, sample distribution tests",
    "P29": "numerical inversion of the characteristic function, scaling relations, sample distribution tests",
    "P30": "differential between containers, batch splits, column orders",
    "P31": "generated valid and invalid arguments against the documented admissible sets",
    "P32": "interleaved query histories compared with fresh objects, bitwise input snapshots",
    "P33": "log-density sums recomputed, summary text against live state",
    "P34": "differential checks between classes, dimensions and parametrizations of the same distribution",
    "P35": "deep copies and pickles against the original through histories of changes, threaded queries against serial answers",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py"))]
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python harness/build_ext.py /repo",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 harness/run.py {i} --tier quick",
        "thorough_cmd": f"python3 harness/run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing (Hypothesis generation, shrinking and replay): " + SUBSTANCE[i],
        "level": "exploration",
        "level_note": "Generated-input search against an explicit oracle; no claim beyond the generated cases. Trusts the reference "
                      "computations in /verif/harness (mpmath, scipy, plain counting) and the tolerances stated per sub-check.",
    } for i in have],
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
    "notes": "One command per property; each builds /repo's Cython extensions incrementally if their sources changed. No hooks in /repo.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(have), "claimed", [i for i in ids if i not in have])
