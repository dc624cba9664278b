"""Writes mc/plan.json and MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, ROOT

COMMON = [
    "numpy, scipy, pandas, networkx and CPython behave as documented",
    "behaviour outside the stated bounds is not explored",
]
INTERP = ("sections marked interp execute the real source with NUMBA_DISABLE_JIT=1; "
          "sections marked jit execute the compiled code")
W = {"interp": 6, "jit": 2}
CHECKS = {}


def C(id, technique, rule, quick, thorough, note, assume=(), workers=W, tworkers=None):
    CHECKS[id] = dict(technique=technique, rule=rule, quick=quick, thorough=thorough,
                      note=note, assume=list(assume), workers=workers,
                      tworkers=tworkers or workers)


C("C01", "explicit-state bounded exhaustive enumeration of input tables on the real code against a reference model",
  "every edge list (order and repetition included) over the bound is built by the real constructors; a case is one pair of tables and one class; the observation is the whole image read back",
  "edge lists of length <=3 over 2 vertices (<=2 over 3), <=2 labels, all id kinds (falsy ids, labels and groups included); all row orders of 3-row tables; missing values in each column; tables reused for a second graph; columns given as lists of one; sizes 255-257 and (sparse) 65535-65537",
  "edge lists one longer, 3 labels",
  "Exhaustive within bounds on the interpreted source, repeated in part on compiled code; reference model is a dict of links.", [INTERP])
C("C02", "explicit-state enumeration of all small graphs on the real code against definitional oracle",
  "all subsets of possible links; all measures compared with direct counting",
  "all 512 directed graphs on 3 vertices, labelled: all on 2 vertices with <=4 of 8 cells, <=2 cells on 3 vertices; all group maps",
  "labelled: all 256 on 2 vertices x 2 labels, <=3 cells on 3 vertices", "Exhaustive within bounds.", [INTERP])
C("C03", "exhaustive exploration of query histories on one object (real code), compared with fresh-object answers",
  "a state is an object with a history; a transition is one query; all histories to the depth bound",
  "depth 2 over the whole menu (20-60 queries) for every class, backend", "depth 3",
  "Exhaustive to the depth bound; object copies by deepcopy.", [INTERP])
C("C04", "explicit-state enumeration of all small graphs on the real code against definitional oracle",
  "all subsets of possible links; mean over neighbours computed directly", "all graphs on <=3 vertices, labelled <=2 cells on 3 vertices; properties of 1 to 3 dimensions, fine-grained and large",
  "labelled <=3 cells on 3 vertices", "Exhaustive within bounds.", [INTERP])
C("C05", "explicit-state enumeration of all small graphs on the real code, export read back",
  "all subsets of possible links; exported nodes and edges read back", "all on 2 vertices, <=5 links on 3", "all on 3 vertices; all 256 labelled on 2 vertices",
  "Exhaustive within bounds.", [], {"interp": 8})

DIRECT = "stateless explicit enumeration of model instances on the real code against an independent reference model"
C("C06", "explicit-state enumeration of the grid fitness x fitness x parameter x backend on the real code against the closed law",
  "a case is one pair of fitnesses in one backend walked through every parameter in increasing order; p, log p and log(1-p) are read from the expected number of edges and from the likelihoods of the graph with and without the one possible link",
  "13 x 13 fitness magnitudes 0..1e150, 14 parameters 0..inf, 3 backends, 2 laws, 1-3 layers with 9 magnitudes each; integer and narrow types up to 2^40",
  "3 layers with 9 magnitudes each; all pairs placed as the only link of two vertices",
  "Exhaustive on the grid; jit part repeats a sub-grid on compiled code.", [INTERP])
C("C07", "explicit-state enumeration of fitness on/off patterns on the real code; expectations also recomputed by summing over all graphs weighted by the code's own likelihood",
  "a case is one model instance in one backend; all expected values compared with sums over the independent probability table; section enumerated sums over every graph",
  "all on/off patterns of both fitnesses for n<=3 and for 1x1,1x2,2x1,2x2 (vertex x label), 3x2 in part; parameter 0, 0.7, 40, inf, per label; all graphs of <=3 vertices or <=2x3; 9 input containers/dtypes",
  "n=4, all 4096 patterns of 3x2, 2x3; all 512 graphs with self-loops on 3 vertices, all 4096 labelled graphs on 3 vertices",
  "Exhaustive within bounds.", [INTERP])
C("C08", "explicit-state enumeration of all graphs of every small model on the real code; normalisation summed over the whole space",
  "for every model instance the likelihood of every graph (also the impossible ones) is computed and compared; the exponentials are summed",
  "all 2/16/512 graphs on 1-3 vertices, all 256 on 2x2, 2x3 without loops; zero, infinite parameters; 20+ containers incl. stored zeros, duplicates, unsorted indices, graph objects",
  "all patterns of one missing fitness on the labelled models, self-loops on n=3",
  "Exhaustive within bounds.", [INTERP])
RNG = "the random source is replaced by an explorer which forces every outcome of every Bernoulli draw (numpy.random entry points are intercepted; a draw compared with p branches with weights p and 1-p)"
C("C09", "stateless model checking of the sampler: exhaustive branching over all outcomes of the random source, path weights summed into the exact distribution",
  "a transition is one draw of the random source, a path one sample; the exact probability of every graph is the sum of the weights of its paths and is compared with the reference law",
  "all on/off patterns on 1-2 vertices, those with at most one missing on 3; 1x1..2x3 labelled; self-loop overrides; a draw of exactly zero; repeated sampling from one object; 12-21 vertices in several Spark blocks",
  "all patterns on 3 vertices, all pairs of patterns on 2x2",
  "Exact distribution by exhaustive path exploration; compiled code only checked for support (pairs of probability 0/1).", [INTERP, RNG])
C("C10", "stateless model checking of the weighted sampler: exhaustive branching over link draws with the weight draws intercepted as symbols (mean recorded, value chosen)",
  "as C09; each weight drawn from the exponential law is answered with factor x mean, so the weight observed on a link reveals the mean of its law",
  "all patterns on 1-2 vertices, <=1 missing on 3; labelled 1x2..2x3; strengths default and given in every container (repeated entries, single precision, views); strengths and q at both ends of their range; 2 factors",
  "patterns with loops on 2x2 in full",
  "Exact; the exponential generator of numpy is trusted.", [INTERP, RNG])
C("C11", "explicit-state enumeration of model x target x starting point x option on the real code, outcome judged on the reference expectation",
  "a case is one fit; the reference expected edges at the fitted parameter are compared with the target unless a warning was raised",
  "n<=4 with <=1 missing fitness per side, labelled up to 3x2/2x3 with one or many parameters, 10 fractions of the maximum incl. 0, 1 and infeasible ones, 6 starting points, both methods, scales 1e-12..1e12; targets in every form (arrays, lists, scalars, narrow types)",
  "all starting points at all sizes", "Exhaustive within bounds.", [INTERP])
C("C12", "model checking of the solver against an adversarial environment: every monotone function on a grid of values is generated lazily and exhaustively",
  "a state is (points asked, answers); a transition is one answer of the environment consistent with monotonicity; every run to the depth bound is executed on the real solver and monitored for domain, bracket, termination and honest convergence",
  "4 answers deep, 18 solver configurations, 12 first answers (value, slope); plus 40 concrete functions x targets x starting points x tolerances",
  "6 answers deep", "Exhaustive to the depth bound; deeper runs cut and counted.", ["values on a grid of levels, slopes in {0,0.05,1,1e8}"])
C("C13", "exhaustive exploration of operation histories on one model object (real code) compared with a fresh object",
  "a state is a model object with a history of queries, samplings, fits, refusals; every history to the depth bound is executed and the last answer compared with that of a fresh model",
  "all pairs over the whole menu (40-60 operations), all triples over the core menu, every (stored answers, parameters set by hand, query told to recompute), for each of 15 classes, with and without self-loops",
  "core menu to depth 4, labelled models with one parameter per label in full",
  "Exhaustive to the depth bound.", [INTERP], workers={"interp": 5, "jit": 3})
C("C14", DIRECT,
  "a case is one model instance in one backend; every combination of property, direction, degree direction, self-loop argument is asked",
  "all on/off patterns n<=3; labelled 1x1..3x3 patterns with one missing or one present cell, a missing vertex; parameters incl. 1e-18 and inf; properties of 1 to 3 dimensions; flags as bool, numpy bool and int",
  "all 256 pairs of 2x2 patterns", "Exhaustive within bounds.", [INTERP])
C("C15", "explicit-state enumeration of aggregate graphs x partitions x fitness patterns; samples by exhaustive branching over the random source; oracle by enumeration of each block's link sets",
  "a case is one conditional model; expectations, likelihood of every graph, exact sampling distribution and fits compared with the conditional distribution enumerated block by block",
  "all partitions of <=3 vertices into <=2 groups with all aggregate graphs, <=1 missing fitness per side, parameters 0,1e-20,0.4,30,inf; 4 vertices and 3 groups in part; aggregate tables with repeated entries and in every container, strengths of very small and large magnitude",
  "all aggregate graphs on 3 groups; all parameters with all patterns", "Exhaustive within bounds.", [INTERP, RNG])
C("C16", "model checking of the block/partition/schedule space: a deterministic Spark stand-in enumerates partitionings, task orders, merge orders, retries and closure isolation; replay on a real local Spark",
  "a state is (model, vertices, blocks, schedule); the repository's own task functions run under each schedule and all results are compared with the sequential reference; part of the cases is replayed on a real SparkContext",
  "n=1..45 x all block counts x 5 models; all orders and merge orders of <=4 tasks, all retry subsets of 4 tasks, covering set for 9; one possible pair in every position",
  "n=1..90, all orders of 6 tasks; all small cases on real Spark",
  "The stand-in implements parallelize/map/reduce/fold/collect/broadcast with closure copies; validated by the replay on real Spark.",
  ["if Spark cannot start, that part is reported as inconclusive and does not fail"], {"interp": 7, "spark": 1})
C("C17", DIRECT,
  "a case is one model with every observed graph of the bound and every threshold list; the four counts are recomputed pair by pair",
  "all on/off patterns n<=3, labelled n<=3 L<=3; all graphs on <=2 vertices, <=2 links plus every eleventh on 3; thresholds 0..1, ties, automatic; 12 containers; 11-44 vertices in blocks; 190 vertices (counts beyond 16 bits)",
  "all 512 graphs on 3 vertices", "Exhaustive within bounds.", [INTERP])
C("C18", "explicit-state enumeration of all small weighted graphs on the real code; residual of the defining equation solved exactly",
  "a case is one graph; PageRank compared with the exact solution of the linear system, trophic depth with the absorbing-walk solution",
  "all 512 directed and 64 undirected graphs on 3 vertices, all 2x2 labelled, sets of 3 links on 4 (every fourth), 5 weightings, dampings and tolerances, final weights",
  "all sets of three links on 4 vertices", "Exhaustive within bounds.", [INTERP])
C("C19", "explicit-state enumeration of construction routes x containers x dtypes x bad arguments on the real code",
  "a case is one way of building; the model's parameters and answers are compared with those of the reference model, refusals must raise",
  "all graphs of a family x 15 classes x subsets of explicit arguments; 13 containers, 8 dtypes; about 45 kinds of bad arguments per class",
  "same", "Exhaustive over the listed tables.", [INTERP])
C("C20", "exhaustive differential exploration: every public method shared by the backends x full product of argument tables x all histories of two calls",
  "a case is one call or pair of calls made on dense, sparse and Spark objects built alike; outcomes (value or refusal) must agree",
  "full product of argument values of every shared public method; all pairs of core calls; every constructor argument with every odd value; all graphs with <=3 rows",
  "longer tables", "Exhaustive over the tables; menu read off the classes at run time.", [INTERP])
C("C21", "stateless model checking of the sampler (all outcomes of the random source) with every sampled object's measures compared with the definition",
  "each path of the random source gives one sampled graph; links are read once through the adjacency and all else is checked against them",
  "5 model kinds x 3 backends, n<=3, all kinds of weights, 4 kinds of reference graph; conditional model",
  "full battery on every sampled object", "Exhaustive over outcomes within bounds.", [INTERP, RNG])


def main():
    plan, checks = {}, []
    for p in PROPS:
        i = p["id"]
        if i not in CHECKS:
            continue
        c = CHECKS[i]
        plan[i] = {"level": "model_checking", "rule": c["rule"],
                   "bounds": {"quick": c["quick"], "thorough": c["thorough"]},
                   "assumptions": COMMON + c["assume"],
                   "workers": {"quick": c["workers"], "thorough": c["tworkers"]}}
        checks.append({"property": i, "quick_cmd": "python3 -m mc.run " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 -m mc.run " + i,
                       "technique": c["technique"], "level": "model_checking",
                       "level_note": c["note"]})
    na = [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in CHECKS]
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, numba, pandas, networkx, pyspark'",
           "checks": checks, "not_applicable": na,
           "notes": "Checks run the package from /repo/src directly (PYTHONPATH); nothing is installed. No hooks in /repo are needed: the random source, the Spark context and the query schedule are controlled from outside."}
    json.dump(plan, open(os.path.join(ROOT, "mc", "plan.json"), "w"), indent=1)
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
