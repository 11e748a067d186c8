"""Writes DESIGN.md from design_template.md, the notes below, the sub-check registry, catches.tsv and the seeded bugs."""
import importlib
import json
import os
import sys

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, os.path.join(V, "harness"))
import boot  # noqa: E402

boot.paths()
import core  # noqa: E402

WHY = {
    "P01": "The closed forms are evaluated with 50 digits, so the whole parameter range counts, including theta next to 0 and far beyond where u^-theta or e^-theta leave comfortable doubles. Faces and corners and the Frechet, monotonicity and permutation laws are checked separately because the closed form alone says nothing about inputs with zeros and ones.",
    "P02": "The exact density is the d-th coefficient of a power series of the generator composed with its inverse, computed with 80 digits: no formula of the code is reused, and it works for every family and up to 160 dimensions, where the code switches between polynomial methods. A second, reference-free oracle integrates the code's own pdf over boxes and compares with the code's own cdf.",
    "P03": "Every generator, inverse, derivative, Pickands and coefficient function is compared with a 50-digit evaluation on log-spaced arguments; the coefficient routines with exact Stirling-number sums (integers and rationals), for every documented method.",
    "P04": "Closed forms with 50 digits plus two independent derivations of tau and rho (quadrature of the code's own cdf and of the generator). Inverses are judged by the exact tau of the parameter returned, so any correct solver passes.",
    "P05": "Samples are judged only as samples: exact binomial tails of counts below random points against the exact cdf, DKW bands for margins, a runs-type test for independent rows. Rank-correlation checks with 500 000 draws reach weak dependence, the distribution of coordinate differences reaches strong dependence.",
    "P06": "Densities from numpy linear algebra with scipy.special (or mpmath) quantiles, cdfs from deterministic quadrature (`harness/mvnref.py`: 2-3 dimensions and one-factor matrices), so the reference shares neither the code's multivariate-normal routine nor its density.",
    "P07": "Stateful: histories of assignments through every setter and `__setitem__` form are run against a plain matrix model; after every step matrix, parameters and reads must agree with the model, and rejected assignments must change nothing.",
    "P08": "Closed forms in mpmath/scipy for scalars, vectors and matrices of inputs; the measures are also derived from the code's own cdf.",
    "P09": "As P05 with quadrature orthant probabilities; the four corners of every pair, the signs of all coordinates together and the joint tail separate the Student copula from look-alikes (one chi-square per row, not per entry).",
    "P10": "Optimality is checked where it can be observed: no neighbour, grid point, start or generating parameter may have a larger likelihood than the estimate; the reported likelihood must be that of the stored parameters; ranks are computed independently. All named optimisers, option dictionaries, starts, scales, tie rules and packagings are drawn.",
    "P11": "The rank correlations are counted pair by pair and the family's closed inverse applied to them. Data sets include ties and perfectly dependent columns whose inverted matrix needs the projection.",
    "P12": "Ranks by counting, for every tie rule, container, memory layout and dtype; metamorphic relations (increasing maps, permutations, negation).",
    "P13": "Definitions written out with loops; eigenvalues classify PSD matrices; a symmetric matrix is perturbed by amounts on either side of the tolerance.",
    "P14": "The defining sum with counted ranks and the incomplete beta function, over smoothings x ties x offsets x points, with grid points included exactly as stored.",
    "P15": "Density by definition and by integrating it against the code's own cdf; resampled rows must be stored rows with equal frequencies; back-transformation against the order statistic.",
    "P16": "Sklar's identity with scipy margins and a separately built inner copula; far tails in logarithms; the per-column reporting of parameters uses defaults, args, kwargs and reused dictionaries.",
    "P17": "Margins against scipy's own fit and closed-form maximum likelihood estimates; inner copula against the same class fitted alone with the same options; histories of refits.",
    "P18": "Round trips over vector, dictionary and object form with the documented layout as a model; random vectors decode to valid parameters; aliasing and atomicity of rejected assignments.",
    "P19": "Definitions with scipy normals (log-sum-exp), joint samples by binomial tests, many tiny samples pooled.",
    "P20": "EM is judged iterate by iterate against the exact posterior-weighted update; k-means through the partitions it must correspond to (all of them enumerated for few rows); end results by validity and likelihood relative to the start.",
    "P21": "Correlations by counting pairs on exactly the rows a missing-value policy keeps; labels and containers.",
    "P22": "The statistic by definition (an interval where grid rounding decides a comparison); p-values against an own bootstrap, and against the exact enumeration of all swaps for small samples.",
    "P23": "As P22 with the flip bootstrap. One known finding (below).",
    "P24": "Statistic and parameter from an independent fit of the class under both tie rules (a single tied pair included); p-values against an own parametric bootstrap, and against exact enumeration for the independence copula on two to four points.",
    "P25": "40-digit values across all branch points of the argument reductions; functional equations; threaded, serial and elementwise evaluation agree.",
    "P26": "Python-integer recurrences and exact products; whole rows equal single values and known row sums.",
    "P27": "40-digit values and exact polynomials; the root finder is judged by the sign change it must return.",
    "P28": "Own log-density by Cholesky; samples by binomial tests on Mahalanobis balls, margins and joint tails; shapes, seeds and rejected input.",
    "P29": "The density by inversion of the characteristic function (or, for small alpha, a dense evaluation of an integral representation), samples against its distribution function; S0/S1 parametrisations and location-scale changes over 14 orders of magnitude.",
    "P30": "Differential: one set of numbers in every container (list, tuple, array layouts, integer and small float types, Series, DataFrame with shuffled index and columns, keywords) must give the same bits or values and labels.",
    "P31": "A table of valid and invalid requests per entry point is drawn; invalid ones must raise and leave the object unchanged, valid ones must be accepted and read back.",
    "P32": "Histories of queries, fits and writes on several live objects and on the caller's containers; after every step every object must answer a fixed probe with the same bits unless it was the one changed.",
    "P33": "Log-likelihood against own sums of the density; every number in the text and HTML summary is looked up against the state; histories of refits and parameter changes.",
    "P34": "Differential between the package's own classes: no formula is written down here, so an error would have to be made identically in two unrelated classes to stay unseen. Samples are judged against the *other* class's distribution function.",
    "P35": "Each query of P32's table is answered by the original and by the copy and compared bit by bit, through changes of either; threads run the table in random orders with a switch interval of 10 microseconds and must give the serial bits. The interleavings are those the interpreter produces, not enumerated ones.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    out = []
    for p in props:
        m = importlib.import_module("props." + p["id"].lower())
        out.append(f"### {p['id']} — {p['title']}\n\n{WHY[p['id']]}\n")
        out.append("Bounds and assumptions: " + "; ".join(m.ASSUMPTIONS) + ".\n")
        out.append("| sub-check | quick | thorough | what is generated and compared |\n|---|---|---|---|")
        for s in core.REGISTRY:
            if s.prop == p["id"]:
                out.append(f"| {s.name} | {s.quick} | {s.thorough} | {s.rule.replace('|', '/')} |")
        out.append("")
    rows = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
    caught = dict(x.rstrip("\n").split("\t", 1) for x in open(os.path.join(T, "catches.tsv")))
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
        rows.append(f"| {b} | {m['property']} | {caught.get(b, '(not evaluated)')} | {' '.join(str(m['needs']).split())[:110]} |")
    t = open(os.path.join(T, "design_template.md")).read()
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@CATCHES@@", "\n".join(rows)).replace("@@MISSED@@", ""))


main()
