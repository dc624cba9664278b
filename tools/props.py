"""Source of properties.jsonl (python3 tools/props.py writes it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/graph_ensembles/"
DG, DM = D + "graphs.py", D + "models.py"
SG = D + "sparse/graphs.py"
SE = D + "sparse/models/ensembles.py"
SF = D + "sparse/models/fitness.py"
SI = D + "sparse/models/invariant.py"
SR = D + "sparse/models/random.py"
SC = D + "sparse/models/conditional.py"
SP = D + "spark/models.py"
SOL, LIB = D + "solver.py", D + "lib.py"
MODELS = [DM, SE, SF, SI, SR, SP]


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None))


PROPS = [
P("C01", "A graph is a faithful image of the vertex and edge tables",
  "Whatever vertex and edge tables are given, in whatever row order and with whatever id types, a dense or sparse, directed or undirected, simple or labelled graph holds exactly the vertices, labels, groups and links of the tables, with repeated entries of the same link (in an undirected graph also the reversed one) merged into one whose weight is the sum; isolated vertices stay. The dictionaries from ids, labels and groups to indices are one-to-one and agree with the adjacency. Tables naming unknown or duplicated vertices or missing columns are rejected and the caller's own columns are left unchanged.",
  ["inputs", "configurations"], "all edge lists (with repetitions, self-loops, reversals) up to a size bound over 1-3 vertices and 1-3 labels, all row orders of tables, 4 id types, 3 weight types, all group assignments, 4 graph classes x 2 storage backends",
  "Tests build one four-vertex table; merging, orientation, id types and empty parts need every combination.",
  [DG, SG, LIB], [("Graph/DiGraph/MultiGraph/MultiDiGraph constructors", DG), ("sparse constructors", SG), ("id and index maps", LIB)],
  ["id_dict/label_dict/group_dict", "adjacency_matrix()", "adjacency_tensor()", "num_vertices/num_labels/num_groups"],
  [("adj", "stored links", DG), ("id_dict", "vertex id to index", DG)]),
P("C02", "Graph measures equal their definition on every graph",
  "On every graph, the number of edges, total weight, degree, strength, in/out variants, their by-group and by-label breakdowns and the adjacency matrices/tensors (directed or not, weighted or not) equal the counts and sums their definitions give on the link set; a link present in several layers or in both directions counts once in projected measures, a self-loop counts once, and an unweighted graph has unit weights.",
  ["inputs", "configurations"], "every graph on up to 3 vertices (all subsets of possible links; bounded subsets for 2-3 labels), all group assignments, weighted and unweighted, all classes and both backends, plus families with 255-257 vertices, labels or groups",
  "Tests compare with hand-written numbers for a single graph.",
  [DG, SG], [("degree/strength/by_group/by_label methods", DG), ("same, sparse", SG)], ["every measure method"]),
P("C03", "Answers of a graph do not depend on the queries made before",
  "For every sequence of measure queries on a graph object, each answer equals the one a fresh identical graph gives to that query alone, earlier returned answers and the graph itself are not altered by later queries.",
  ["histories"], "all query histories to depth 2 (3 in the thorough tier) over the full menu of measures with all their argument combinations, on representative graphs of every class and backend",
  "Results are memoised in attributes; tests always query fresh or identically-parameterised objects.",
  [DG, SG], [("memoised attributes and recompute flags", DG), ("same, sparse", SG)], ["every measure method"],
  [("_degree, _strength, _out_degree, ...", "memoised answers", DG)]),
P("C04", "Average nearest-neighbour measures are the mean over neighbours",
  "On every graph the average nearest-neighbour property or degree of a vertex is the plain mean of the property over its (out-, in- or either-direction) neighbours, each neighbour once, is zero for a vertex with no such neighbour, and disregarding self-loops removes the vertex itself from both the sum and the count.",
  ["inputs", "configurations"], "every graph on up to 3 vertices (bounded subsets for labelled ones), all directions, both self-loop settings, scalar and vector properties, all classes and both backends",
  "Tests use one graph without isolated vertices and few direction pairs.",
  [DG, SG], [("average_nn_property/average_nn_degree", DG), ("same, sparse", SG)], ["average_nn_property", "average_nn_degree"]),
P("C05", "The networkx export carries exactly the graph",
  "For every graph, the networkx object has the right kind, exactly the graph's vertices (with their group) and exactly its links with their label and weight, and nothing else.",
  ["inputs", "configurations"], "every graph on up to 3 vertices within the link bound, labelled or not, weighted or not, grouped or not, both backends",
  "Tests export one graph and compare a few attributes.",
  [DG, SG], [("to_networkx", DG), ("to_networkx, sparse", SG)], ["to_networkx()"]),
P("C06", "Link probabilities follow the model law for every parameter and fitness",
  "For every fitness pair and parameter, including zero, tiny, huge and infinite ones, the probability with which a model links two vertices is the law of that model (fitness: t/(1+t); scale-invariant: 1-exp(-t); random: the parameter), lies in [0,1], never decreases when the parameter or a fitness grows, and its complement's logarithm is evaluated without loss for small and large t; in labelled models layers are independent and the probability of at least one link is one minus the product over layers.",
  ["inputs", "configurations"], "full grid of fitness values x parameters over all magnitudes from 0 to the float limits and infinity, all models, labels 1-3, all backends, observed through the public expected values and likelihoods",
  "Tests evaluate a handful of moderate values.",
  MODELS, [("p_ij, p_jac_ij, logp, log1mp kernels", DM), ("same, sparse", SF), ("same, scale invariant", SI), ("same, spark", SP)],
  ["expected_num_edges", "expected_out_degree", "log_likelihood"]),
P("C07", "Expected edges and degrees are the exact ensemble averages",
  "For every model with its parameters set, the expected number of edges, degree, in- and out-degree, in total, per label and by-label-per-vertex, equal the average of that measure over all graphs weighted by their probability in the ensemble, honouring whether self-loops are allowed and, per vertex and label, only the pairs that can be linked.",
  ["inputs", "configurations"], "all zero/nonzero fitness patterns and index layouts on 1-4 vertices and 1-3 labels, scalar and per-label parameters, self-loops allowed or not, all models and backends; exact enumeration of every graph of the ensemble for the small ones",
  "Tests check one fitted network, and compare with sampling averages within wide tolerances.",
  MODELS, [("exp_edges, exp_degrees, exp_edges_label, exp_degree_by_label", DM), ("sparse", SE), ("spark blocks", SP)],
  ["expected_num_edges", "expected_num_edges_label", "expected_degree", "expected_out_degree", "expected_in_degree", "expected_*_by_label"]),
P("C08", "The log-likelihood is the normalised log-probability of the graph",
  "For every model and every graph, in any accepted container, the log-likelihood is the logarithm of the probability of exactly that set of links: it is minus infinity exactly for impossible graphs (links of zero probability, missing links of probability one, self-loops when disallowed), finite otherwise, and its exponentials over all graphs sum to one.",
  ["inputs", "configurations"], "all graphs on 1-3 vertices (and all tensors on 2 vertices with 2 labels) x fitness patterns x parameters x self-loop settings x containers (graph object, arrays, sparse matrices, lists) for all models and backends",
  "Tests evaluate the likelihood of one observed graph.",
  MODELS, [("likelihood / log_likelihood", DM), ("sparse", SE), ("random", SR), ("spark", SP)], ["log_likelihood"]),
P("C09", "Unweighted sampling draws every graph with its ensemble probability",
  "For every model, drawing an unweighted sample returns each possible graph with exactly the probability the ensemble assigns to it: links are independent over ordered pairs and labels, at most one per pair and label, never a self-loop when disallowed, and pairs of probability zero or one are never or always linked.",
  ["inputs", "schedules"], "every outcome path of the random source (all sides of each comparison the sampler makes) for all fitness patterns on 1-3 vertices and 1-2 labels, both self-loop settings, all models and backends; on compiled code the deterministic regimes and the support",
  "Tests average a few hundred random samples with a tolerance and a fixed seed.",
  MODELS + [SC], [("binary_sample", DM), ("sparse", SE), ("random", SR), ("spark block sampling", SP)], ["sample()", "num_edges()", "adjacency_matrix()/adjacency_tensor()"]),
P("C10", "Weighted sampling puts weights of the right law on the sampled links",
  "For every model, a weighted sample has the same distribution of links as an unweighted one and puts on each sampled link a positive weight drawn from the requested law, whose mean conditional on the link is the prescribed one (CReM: the product of strengths over their total divided by the link probability, per layer for labelled models); weights are never put elsewhere, and the expected strengths are thereby the prescribed ones.",
  ["inputs", "schedules"], "every outcome path of the link choices with the weight draws intercepted and their parameters recorded, strength vectors with zeros in every position, scalar and per-label strengths, self-loops allowed or not, all models and backends",
  "Tests compare averages of random samples for one network.",
  MODELS, [("_cremb_sample*, _weighted_sample, _discrete_weighted_sample", DM), ("sparse", SE), ("random", SR), ("spark", SP)], ["sample(weights=...)", "total_weight()", "strengths"]),
P("C11", "Fitting matches the requested number of edges or says it did not",
  "For every model, fitness and feasible target, after fitting the expected number of edges (or the expected number per label when a parameter per label is used) equals the target within the requested tolerance, whatever the starting point, or a warning says that it did not converge; an infeasible target never silently yields a wrong parameter and invalid arguments are rejected leaving the model usable.",
  ["inputs", "configurations", "histories"], "grid of targets from zero to beyond the maximum, starting points, methods, per-label and joint parameters, fitness patterns with zeros, self-loops allowed or not, refits, all models and backends",
  "Tests fit one network to its own density.",
  MODELS + [SOL], [("fit", DM), ("fit, sparse", SE), ("fit, spark", SP), ("monotonic_newton_solver", SOL)], ["fit()", "param", "expected_num_edges", "solver_output"]),
P("C12", "The monotonic solver never lies about convergence",
  "For every monotone function and starting point, the root finder terminates, only evaluates the function inside the admissible half-line, never leaves a bracket it has already established, and reports convergence only at a point where the function value or the step is within the requested tolerance; otherwise it reports that it did not converge together with the last point.",
  ["inputs", "schedules"], "all answers of an adversarial monotone function (sign, magnitude and slope chosen at each evaluation consistently with the past) to a depth bound, plus a grid of concrete function families, starts and tolerances",
  "Tests solve three smooth functions.",
  [SOL], [("monotonic_newton_solver", SOL)], ["OptimizeResult-like output"]),
P("C13", "Answers of an ensemble do not depend on what was asked before",
  "For every sequence of queries, samplings and fits on a model object, each answer equals the one a freshly built model with the same parameters gives; in particular refitting or asking with another self-loop setting is never answered with earlier stored results, sampling and rejected queries leave the model unchanged. A query told to recompute after the parameters were changed by hand answers for the new parameters.",
  ["histories"], "all histories to depth 2 (3 thorough) over the full query menu with all argument combinations, refits and rejected calls, for every model class and backend",
  "Tests call each method once on a fresh model.",
  MODELS + [SC], [("memoised expected values, recompute flags", SE), ("same, dense", DM), ("same, spark", SP)], ["every expected_* method", "fit", "sample"],
  [("_exp_num_edges, _exp_out_degree, exp_av_*", "memoised answers", SE)]),
P("C14", "Expected nearest-neighbour averages follow the link probabilities",
  "For every model the expected average nearest-neighbour property (or expected degree) of a vertex is the link-probability-weighted mean of the property over the other vertices in the chosen direction, zero for a vertex whose expected degree is zero, and including or excluding self-loops consistently in both the sum and the expected degree; labelled models use the probability of a link in any layer.",
  ["inputs", "configurations"], "all fitness patterns on 1-3 vertices and 1-2 labels, all directions, self-loop settings, scalar and vector properties, all models and backends",
  "Tests compare with an approximate sample average for one network.",
  MODELS, [("expected_av_nn_property/expected_av_nn_degree, exp_av_nn_prop", SE), ("dense", DM), ("spark", SP)], ["expected_av_nn_property", "expected_av_nn_degree"]),
P("C15", "The conditional model is the ensemble conditioned on the aggregate graph",
  "For every aggregate graph and partition of the vertices into groups, the conditional scale-invariant model assigns to each graph its unconditioned probability given that two groups are linked if and only if they are linked in the aggregate graph: expected edges and degrees, likelihood and samples all agree with that conditional distribution, samples always reproduce the aggregate graph, weights asked for spread each aggregate weight over the sampled links of its block in proportion to the vertices' strengths and add up to it, and fitting matches the requested number of edges.",
  ["inputs", "schedules", "configurations"], "all aggregate graphs on 1-2 groups (3 thorough) with all assignments of up to 4 vertices, fitness patterns, parameters, exact enumeration of all consistent graphs, every outcome path of the sampler",
  "Tests check a single five-vertex example.",
  [SC], [("ConditionalInvariantModel", SC)], ["expected_num_edges", "expected_degree", "log_likelihood", "sample", "fit"]),
P("C16", "Spark results do not depend on blocks, partitions or task schedule",
  "For every number of vertices, number of blocks, partitioning, order in which partial results arrive and task retry, every quantity of a Spark model equals that of the sequential model with the same parameters: every vertex pair is visited exactly once.",
  ["schedules", "fault_sequences", "configurations"], "all vertex counts 1-45 and block counts, every order/grouping of fold and collect results up to a partition bound, task re-execution, on a controlled in-process scheduler running the real model code, validated against real pyspark",
  "Tests run one size, one block count, on whatever schedule the local master happens to pick.",
  [SP, SE], [("p_iter_rdd block construction", SP), ("map/fold/collect pipelines", SP)], ["all expected_* methods", "log_likelihood", "sample", "fit"],
  [("p_iter_rdd", "blocks of vertex pairs", SP)]),
P("C17", "Spark confusion matrices count every vertex pair once per threshold",
  "For every model, observed graph and list of thresholds, the Spark confusion matrices count, over all ordered pairs (self-loops only when allowed), those with link probability at least, and below, each threshold against presence in the observed graph, so the four cells of each threshold add up to the number of pairs and the positives never increase with the threshold. Thresholds left to the model (none or a number given) span the least to the greatest positive link probability on a logarithmic scale.",
  ["inputs", "configurations", "schedules"], "all graphs on 2-3 vertices x fitness patterns x thresholds on, between and outside the occurring probabilities x self-loop settings x single and labelled models",
  "Tests do not check the counts against the definition.",
  [SP], [("confusion_matrix", SP)], ["confusion_matrix()"]),
P("C18", "PageRank and trophic depth satisfy their defining equations",
  "For every graph, dense or sparse, with weights of any type, PageRank is (to the requested tolerance) the probability vector that solves the damped random-walk equation on the link weights (unit weights if asked to disregard them; labels merged), vertices without links out jumping anywhere; trophic depth, given the weight of each vertex's connection to the final node, is the expected number of steps to it: one plus the weighted mean depth over where a vertex's links and final connection lead (the final node has depth zero), zero for a vertex with neither. Neither changes the graph or its arguments.",
  ["inputs"], "all directed graphs on up to 3 vertices with weights from a grid, integer and float, all sparse formats, damping values",
  "There are no tests for these functions.",
  [LIB], [("pagerank, trophic_depth", LIB)], ["lib.pagerank", "lib.trophic_depth"]),
P("C19", "Equivalent ways of building a model give the same model; bad input is refused",
  "A model built from a graph equals the model built from that graph's own vertex count, edge count and in/out strengths (or by-label strengths), whatever numeric type or sequence they are given in; explicit arguments override those taken from the graph, and wrong sizes, signs, types or missing arguments are refused with an error instead of yielding a model.",
  ["inputs", "configurations"], "all classes and backends x construction routes x dtypes x every single wrong argument from a catalogue",
  "Tests cover a few routes for a single graph.",
  MODELS + [SC], [("__init__ of every model", DM), ("sparse", SF), ("spark", SP)], ["constructors", "model attributes"]),
P("C20", "Dense, sparse and Spark models agree with each other",
  "For the same inputs, the dense, sparse and Spark versions of a model or graph return the same values from every method they share, including after the same sequence of calls, and accept or reject the same arguments.",
  ["inputs", "configurations", "histories"], "fitness patterns x parameters x self-loop settings x every shared method and argument combination, all classes; results of all backends compared with each other",
  "Each backend is tested separately against stored numbers.",
  [DG, DM, SG] + MODELS[1:], [("three implementations of the same classes", DM), ("sparse", SE), ("spark", SP)], ["all shared methods"]),
P("C21", "Sampled graphs are complete graph objects",
  "Every sampled graph has the vertices, ids, labels and size of the model it was drawn from, and every measure, export and reuse as model input works on it and equals the definition on its links, exactly as for a graph built from tables with those links.",
  ["inputs", "schedules", "configurations"], "every link outcome on 2 vertices (2 labels) and structured outcomes on 3, all weight types, all models and backends, every measure method",
  "Tests only look at adjacency and a few measures of one sample.",
  MODELS + [SC, DG, SG], [("sample builds the graph object attribute by attribute", DM), ("sparse", SE), ("spark", SP)], ["sample()", "all measures of the result"]),
]

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
