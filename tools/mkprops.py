#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["segeval/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "segeval/" + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Encoding conversions are exact and invert each other",
  "For every segmentation (a sequence of positive segment masses) converting masses to positions and back returns the same masses, and the NLTK string with a boundary symbol exactly where segments end converts to those masses, for any boundary symbol character. The boundary string of masses has one entry per potential boundary (units minus one), and holds boundary type 1 exactly at the cumulative segment ends and nothing elsewhere. Positions with any labels convert to the lengths of their runs of equal labels.",
  ["inputs"], "all segmentations, any number and size of segments, any labels, any boundary symbol",
  "format_test.py samples about a dozen conversions; the guarantee is over every mass sequence and label choice.",
  ["format.py"], [("run-length grouping", "format.py:convert_positions_to_masses"), ("label expansion", "format.py:convert_masses_to_positions"), ("running position over a list of sets", "format.py:boundary_string_from_masses"), ("split on the symbol", "format.py:convert_nltk_to_masses")],
  ["return values of the four conversion functions"])

p("C02", "Every metric depends on the segmentation, not on its encoding",
  "The same pair of segmentations yields the same result from a metric in every encoding the metric supports (mass, position and NLTK for all metrics, single-type boundary sets for the boundary-edit-distance ones), for single pairs and for datasets with that boundary format. Position labels only name segments: any labelling that gives different segments different labels, with labels of any type, means the same. Lists and tuples mean the same.",
  ["inputs", "configurations"], "all pairs of segmentations of at least two units, all encodings, labellings, containers and metric options",
  "Each metric's tests use one or two inputs per format and never compare a pair across formats, labels or containers.",
  ["format.py", "similarity/__init__.py", "window/pk.py", "window/windowdiff.py", "agreement/__init__.py", "window/__init__.py"],
  [("format dispatch of BED metrics", "similarity/__init__.py:__boundary_statistics__"), ("format dispatch of Pk", "window/pk.py:__pk__"), ("format dispatch of WindowDiff", "window/windowdiff.py:__window_diff__"), ("format dispatch of agreement", "agreement/__init__.py:__potential_boundaries__,__boundaries__")],
  ["metric results for the same pair in several encodings"])

p("C03", "Boundary edit distance accounts for every difference exactly once",
  "For every two boundary strings of equal length, every boundary present on one side only at a position is used by exactly one edit: one addition (of that type and side), one end of a substitution (first string's type, second string's type) or one end of a transposition of that type. No edit refers to a boundary the two strings share, so applying the edits to the first string gives the second. Equal strings give no edits at all.",
  ["inputs", "configurations"], "all pairs of boundary strings of equal length over any integer boundary types, all transposition spans",
  "Ten hand-written pairs are tested; double counting appears only for particular overlaps of near misses with several boundary types.",
  ["similarity/distance/multipleboundary.py"],
  [("potential set edits", "similarity/distance/multipleboundary.py:__optional_set_edits__"), ("transposition detection removing covered set edits", "similarity/distance/multipleboundary.py:__transpositions__"), ("assignment of substitutions and additions", "similarity/distance/multipleboundary.py:__additions_substitutions_sets__")],
  ["result of boundary_edit_distance"],
  [("options_set", "pending differences per position", "similarity/distance/multipleboundary.py"), ("options_transp", "positions covered by transpositions", "similarity/distance/multipleboundary.py")])

p("C04", "Transpositions are the near misses within reach, nearest first",
  "Every transposition moves one boundary type between two positions less than n_t apart where exactly one string has it at each end, on opposite sides, and no boundary takes part in two transpositions. They are found shortest span first and left to right, and every such near miss is taken unless one of its boundaries is already used or both positions also have a substitution pending, in which case the substitutions stay. With n_t of 1 there are none.",
  ["inputs", "configurations"], "all pairs of boundary strings of equal length, all n_t >= 1",
  "Tests use n_t of 2 or 3 and single examples; the priority among competing near misses depends on combinations tests do not enumerate.",
  ["similarity/distance/multipleboundary.py"],
  [("span loop and overlap check", "similarity/distance/multipleboundary.py:__transpositions__,__overlaps_existing__"), ("substitution protection", "similarity/distance/multipleboundary.py:__has_substitutions__"), ("spans from n_t", "similarity/distance/multipleboundary.py:boundary_edit_distance")],
  ["transpositions of boundary_edit_distance for growing n_t"])

p("C05", "Substitutions pair as many types as possible at least type distance",
  "At each position, after transpositions are taken out, the boundary types left on the two sides are paired into substitutions, as many as the smaller side holds, such that the total distance between paired types is least. Only the surplus types of the larger side become additions on that side. Among equally good pairings the smallest types are paired, so the outcome is deterministic.",
  ["inputs"], "all pairs of sets of integer boundary types at any position, including sets of different sizes and ties",
  "One test covers one pair of sets; optimality and tie-breaking are claims over all set pairs.",
  ["similarity/distance/multipleboundary.py"],
  [("search over permutations", "similarity/distance/multipleboundary.py:__additions_substitutions_sets__")],
  ["additions and substitutions of boundary_edit_distance"])

p("C06", "Boundary edit distance is mirror symmetric, and minimal by default",
  "Swapping the two boundary strings swaps the side of every addition and the order of every substitution and keeps every transposition, so edit counts are symmetric. With one boundary type and the default transposition span the number of edits is the smallest possible. The number of edits never exceeds the number of differing boundaries and is zero exactly when the strings are equal.",
  ["inputs", "configurations"], "all pairs of boundary strings of equal length; minimality over all ways to explain the difference",
  "No test swaps arguments, and minimality is a claim against every alternative edit script.",
  ["similarity/distance/multipleboundary.py"],
  [("greedy left-to-right scan", "similarity/distance/multipleboundary.py:__transpositions__"), ("symmetric pairing", "similarity/distance/multipleboundary.py:__additions_substitutions_sets__")],
  ["boundary_edit_distance(a, b) against boundary_edit_distance(b, a)"])

p("C07", "Boundary Similarity is one minus weighted edits per boundary pair",
  "For every pair of segmentations of equal length Boundary Similarity equals one minus the weighted edit count divided by (number of edits plus number of matching boundaries), and is 1 when neither places a boundary. With the default weights it is symmetric, lies in [0, 1], is 1 exactly when the two are identical, and is 0 exactly when nothing matches and every edit is an addition.",
  ["inputs", "configurations"], "all pairs of segmentations, boundary types, n_t and weights",
  "boundary_test.py checks fixed values of a few pairs; range, identity and the formula are claims over all pairs.",
  ["similarity/boundary.py", "similarity/__init__.py"],
  [("fraction of edits and matches", "similarity/boundary.py:__boundary_similarity__")],
  ["value and parts of boundary_similarity"])

p("C08", "Segmentation Similarity is the share of unedited potential boundaries",
  "For every pair of segmentations of equal length Segmentation Similarity equals one minus the weighted edit count divided by the number of potential boundaries, that is potential boundary positions times boundary types in use. With the default weights it is symmetric, lies in [0, 1] and is 1 exactly when the segmentations are identical. Segmentations without any boundary count as using one type.",
  ["inputs", "configurations"], "all pairs of segmentations, boundary types, n_t and weights",
  "segmentation_test.py has single-type fixed values only, so neither the role of boundary types nor the range is settled.",
  ["similarity/segmentation.py", "similarity/__init__.py"],
  [("fraction of potential boundaries", "similarity/segmentation.py:__segmentation_similarity__")],
  ["value and parts of segmentation_similarity"])

p("C09", "Boundary statistics are mutually consistent and complete",
  "The statistics of a pair report exactly its matching boundaries, its fully missed boundaries, the total number of boundaries on both sides, the boundary types in use, the potential boundaries (positions times types), and the edits of the boundary edit distance with their weighted count. Hence matches counted twice plus full misses equals all boundaries, and full misses equals additions plus twice the substitutions and transpositions.",
  ["inputs", "configurations"], "all pairs of segmentations, formats, n_t and weights; single pairs and datasets",
  "One test fixes the dictionary for one pair.",
  ["similarity/__init__.py", "similarity/distance/__init__.py"],
  [("collection over positions", "similarity/__init__.py:__boundary_statistics__"), ("types in use", "similarity/distance/__init__.py:identify_types")],
  ["dictionary returned by boundary_statistics"])

p("C10", "Edit weights scale with distance and custom weights are honoured",
  "By default an addition weighs 1, a transposition weighs its span divided by n_t, and a substitution weighs the distance of its types divided by the size of the range of types in use; the unscaled functions weigh every edit 1. Every metric based on boundary edit distance, including the confusion matrix for near misses and agreement, applies whichever three weighting functions it is given, calling them with the edits, the largest and smallest type in use, and n_t. Scores are exact decimals whatever the weights.",
  ["inputs", "configurations"], "all edits, all n_t, all sets of boundary types, built-in and user-defined weight functions",
  "Weight tests use two fixed lists; combinations of n_t, type ranges and weight functions through the metrics are not tested.",
  ["similarity/weight.py", "similarity/__init__.py"],
  [("weight functions", "similarity/weight.py"), ("application", "similarity/__init__.py:__boundary_statistics__,__boundary_confusion_matrix__")],
  ["weight_* results and count_edits"])

p("C11", "The boundary confusion matrix counts every boundary decision once",
  "The boundary confusion matrix of a pair holds, per boundary type, the number of matches plus the weight of each near miss on the diagonal, one entry for each substitution at (first segmentation's type, second segmentation's type), and one entry for each addition between its type and no boundary, additions of the two sides in opposite orientations. It has no other entries.",
  ["inputs", "configurations"], "all pairs of segmentations, boundary types, n_t, weights and formats; single pairs and datasets",
  "One matrix is tested cell by cell.",
  ["similarity/__init__.py", "ml/__init__.py"],
  [("construction", "similarity/__init__.py:__boundary_confusion_matrix__")],
  ["cells of the matrix returned by boundary_confusion_matrix"])

p("C12", "Pk is the share of probes whose ends disagree",
  "Pk with window size k equals the number of positions i such that units i and i+k lie in the same segment in exactly one of the two segmentations, divided by the number of positions probed (units minus k), and 0 if there are none. It lies in [0, 1], is 0 for identical segmentations and does not change when hypothesis and reference are swapped under a fixed window size. Without a given size the window size of the reference is used.",
  ["inputs", "configurations"], "all pairs of segmentations, all window sizes and rounding functions",
  "Fixed values for a few pairs; window sizes other than the default are hardly tested.",
  ["window/pk.py", "window/__init__.py"], [("sliding probe", "window/pk.py:__pk__")],
  ["value and parts of pk"])

p("C13", "WindowDiff is the share of windows with differing boundary counts",
  "WindowDiff with window size k equals the number of windows of k+1 consecutive units in which the two segmentations have different numbers of boundaries, divided by the number of windows (units minus k), and 0 if there are none. It lies in [0, 1], is never below Pk for the same window, is 0 for identical segmentations and is symmetric under a fixed window size. With the Lamprier et al. correction both texts are first extended by k phantom units at each end, each extension a segment of its own, and the divisor is one more than the number of windows.",
  ["inputs", "configurations"], "all pairs of segmentations, all window sizes, rounding functions and both variants",
  "Fixed values for a few pairs; the correction and explicit window sizes are tested on two or three inputs.",
  ["window/windowdiff.py", "window/__init__.py"], [("sliding window", "window/windowdiff.py:__window_diff__"), ("phantom units", "window/windowdiff.py:__create_paired_window__")],
  ["value and parts of window_diff"])

p("C14", "The window size is half the mean segment size, at least two",
  "The window size of a reference is half its mean segment size, passed through the given rounding function (by default to the nearest integer, ties to even) and never below two. For a dataset the mean is taken over all segments of all codings of all items. An argument that is neither a segmentation nor a collection of segmentations is rejected with the library's error.",
  ["inputs", "configurations"], "all segmentations and datasets in mass or position format, all rounding functions",
  "Two values are tested.",
  ["window/__init__.py"], [("recursive collection and rounding", "window/__init__.py:__compute_window_size__")],
  ["result of compute_window_size"])

p("C15", "One-minus and parts options are consistent with the plain value",
  "For every comparison metric (B, S, Pk, WindowDiff) and for actual agreement, kappa, pi and bias, asking for one minus the value returns exactly one minus the value returned without the option, and asking for parts returns a numerator and denominator whose quotient is the plain value (for kappa and pi observed and expected agreement, for bias the two expected agreements whose difference it is), whether or not one-minus is also requested. This holds for single pairs, for datasets, and for every combination with other options.",
  ["inputs", "configurations"], "all inputs and all combinations of options",
  "Tests exercise one_minus and return_parts for single inputs and never together.",
  ["similarity/boundary.py", "similarity/segmentation.py", "window/pk.py", "window/windowdiff.py", "agreement/__init__.py", "agreement/kappa.py", "agreement/pi.py", "agreement/bias.py"],
  [("result selection", "window/windowdiff.py:__window_diff__"), ("result selection", "window/pk.py:__pk__"), ("result selection", "similarity/boundary.py:__boundary_similarity__"), ("result selection", "similarity/segmentation.py:__segmentation_similarity__")],
  ["results with and without the options"])

p("C16", "A confusion matrix reflects exactly the history of its accesses",
  "After any sequence of reads, writes, increments and removals a cell holds the last value given to it and 0 if none was, different matrices are independent of each other, and whole rows cannot be assigned. The set of classes is exactly the labels of all stored rows and cells, also after earlier queries of the classes. Changing a set of classes that was returned does not affect the matrix.",
  ["histories"], "all histories of cell and row accesses interleaved with class queries",
  "Three short histories are tested; staleness after particular orders of query and change is not.",
  ["ml/__init__.py"], [("default rows and cells", "ml/__init__.py:ConfusionMatrix.__getitem__"), ("classes", "ml/__init__.py:ConfusionMatrix.classes")],
  ["cells and classes() after every step"], [("matrix", "predicted -> actual -> count", "segeval/ml/__init__.py:ConfusionMatrix")])

p("C17", "Precision, recall and F-measure follow their definitions",
  "For a class, precision is its diagonal cell over its row sum, recall is its diagonal cell over its column sum (each 0 when the diagonal is 0), and F-beta is (1+beta^2)PR over (beta^2 P + R), 0 if either is 0. Micro-averages divide the summed per-class numerators by the summed denominators (0 when the numerators sum to 0), macro-averages are the mean over all classes (0 if there are none), and a collection of matrices yields the value of each matrix under its own label. Unknown averages are rejected, and computing any of these never changes the matrix or later results.",
  ["inputs", "histories", "configurations"], "all matrices with numeric cells (int or Decimal), all classes, beta, averaging methods, single matrices and collections",
  "ml/test.py uses two-class matrices with small integers and beta 1.",
  ["ml/__init__.py", "util/math.py"], [("per-class ratios", "ml/__init__.py:__precision__,__recall__,__fmeasure__"), ("averaging", "ml/__init__.py:__value_micro_macro__")],
  ["results of precision, recall, fmeasure and the matrix afterwards"])

p("C18", "Dataset comparison yields one correct value per pair of coders",
  "A metric applied to one dataset yields, for every item and every unordered pair of its coders, exactly one entry keyed item,coder,coder - or both ordered entries when permuted (the default for the window metrics only) - and nothing else. Applied to two datasets it yields exactly one entry per common item and pair of a coder of the first and a coder of the second, in that order. Each entry equals the metric on those two codings, in the key's order, with the same options and the datasets' boundary format. (Coder names that contain commas or print alike make such keys ambiguous and are left out.)",
  ["inputs", "configurations"], "all datasets, numbers of items and coders (also differing per item), all metrics and options",
  "Tests compare means over two sample datasets and a few entries.",
  ["compute.py", "util/__init__.py"], [("pair enumeration and keys", "compute.py:compute_pairwise_values"), ("argument dispatch", "util/__init__.py:__fnc_metric__")],
  ["dictionary of pairwise values"])

p("C19", "Summaries are population statistics of the values",
  "Summarising any non-empty collection of values returns their arithmetic mean, population standard deviation, population variance, standard error (standard deviation over the square root of the count) and count, in this order, for exact values of any size and sign. The result does not depend on the order of the values or on their keys.",
  ["inputs"], "all non-empty collections of numeric values",
  "One eight-element list and a few summaries of sample data are tested.",
  ["compute.py", "util/math.py"], [("statistics", "util/math.py:mean,var,std,stderr"), ("summary", "compute.py:summarize")],
  ["tuple returned by summarize"])

p("C20", "Actual agreement pools all coder pairs and items",
  "Actual agreement is the sum of the comparison metric's numerators over all items and unordered pairs of coders divided by the sum of its denominators (1 if no boundary was placed anywhere), with the chosen metric (B by default, or S), span and weights. Its parts list one numerator, one denominator and one count of potential boundaries per item and pair, and for each coder the boundaries placed with the potential boundaries of each comparison. All coders that occur in the data take part, however the dataset was built or loaded.",
  ["inputs", "configurations", "histories"], "all fully coded datasets of any number of coders and items, all formats and options, however constructed",
  "Tests fix values on five sample datasets built by the constructor.",
  ["agreement/__init__.py", "data/__init__.py"], [("pooling", "agreement/__init__.py:__actual_agreement_linear__"), ("coders", "data/__init__.py:get_coders")],
  ["value and parts of actual_agreement_linear"])

p("C21", "Fleiss' kappa, pi and annotator bias follow their definitions",
  "Pi and kappa are (Aa - Ae)/(1 - Ae) with Aa the actual agreement. For pi, Ae is the square of the mean, over every coder, item and pairing, of boundaries placed per potential boundary; for kappa, Ae is the mean over unordered coder pairs of the product of the two coders' overall proportions of boundaries per potential boundary. Bias is pi's Ae minus kappa's Ae, and is 0 when all coders have the same proportion in every comparison.",
  ["inputs", "configurations"], "all fully coded datasets with at least two coders, texts of at least two units, and, for pi and kappa themselves, expected agreement below 1",
  "Tests fix values on five sample datasets.",
  ["agreement/kappa.py", "agreement/pi.py", "agreement/bias.py"], [("kappa", "agreement/kappa.py:__fleiss_kappa_linear__"), ("pi", "agreement/pi.py:__fleiss_pi_linear__"), ("bias", "agreement/bias.py:__artstein_poesio_bias_linear__")],
  ["values and parts of fleiss_kappa_linear, fleiss_pi_linear, artstein_poesio_bias_linear"])

p("C22", "Agreement ignores names and order, and is 1 for perfect agreement",
  "Actual agreement, kappa, pi and bias do not change when coders or items are renamed, when they are listed in another order, or when the data is given as a plain nested dictionary instead of a dataset. If all coders of every item agree completely, actual agreement, kappa and pi are 1, and none of the three ever exceeds 1.",
  ["inputs"], "all fully coded datasets and all permutations and renamings",
  "Each sample dataset is tested in one fixed arrangement.",
  ["agreement/__init__.py", "agreement/kappa.py", "agreement/pi.py", "agreement/bias.py"], [("order-free sums", "agreement/__init__.py:__actual_agreement_linear__")],
  ["agreement values for rearranged data"])

p("C23", "Merging and copying datasets is exact and isolated",
  "Merging adds every coding of the other dataset and keeps every own one, registers the coders, and leaves the other dataset unchanged; adding with + also leaves the left dataset unchanged. Two codings of the same item by the same coder are rejected with an error, never overwritten. A copy is equal in codings, coders, properties, boundary types and boundary format, and later changes to either one never show in the other.",
  ["histories"], "all sequences of construction, assignment, merging, adding and copying of datasets",
  "Tests merge two datasets once; isolation after further changes is not tested.",
  ["data/__init__.py"], [("merge", "data/__init__.py:Dataset.__iadd__"), ("add", "data/__init__.py:Dataset.__add__"), ("copy", "data/__init__.py:Dataset.copy")],
  ["contents of all datasets after every step"], [("Dataset", "item -> coder -> segmentation, plus coders, properties, boundary types and format", "segeval/data/__init__.py:Dataset")])

p("C24", "Datasets survive a JSON round trip",
  "Writing any dataset of segment masses to a JSON file and reading it back yields the same items, coders and masses (as tuples), the registered coders, and the same properties together with the segmentation type (a property under the name of either, items or segmentation_type, gives way to it). Writing changes neither the dataset nor anything but the named file (output.json inside it if a directory is named), and replaces earlier content entirely. Files that are not JSON, lack the segmentation type or the items, or state another segmentation type are rejected with the data error.",
  ["inputs", "histories"], "all mass datasets with string names (any characters) and JSON properties; all malformed documents of the listed kinds",
  "One file is written and re-read, three bad files are tested.",
  ["data/jsonutils.py", "data/__init__.py"], [("writer", "data/jsonutils.py:output_linear_mass_json,__write_json__"), ("reader", "data/jsonutils.py:input_linear_mass_json")],
  ["files written and datasets read"])

p("C25", "Delimited files and folder trees load completely and faithfully",
  "A delimited mass file yields one item named after the file without its extension, with one coding per non-blank line after the header, holding exactly the masses of that line in order under the coder named first; position files yield the masses of their runs. Loading a folder tree yields exactly the codings of every file with the extension of the chosen type (in any letter case) at any depth, each item named by its folder path joined by commas and the item, merged across files and with what a given dataset held, with clashes of item and coder rejected. Other files are ignored. Any number of files can be loaded.",
  ["inputs", "configurations"], "all file contents, delimiters, names, folder trees and both file types",
  "One file and one folder containing one relevant directory are tested.",
  ["data/tsv.py", "data/__init__.py"], [("row reader", "data/tsv.py:input_linear_mass_tsv"), ("recursive loader", "data/__init__.py:load_nested_folders_dict"), ("name from path", "data/__init__.py:name_from_filepath")],
  ["datasets loaded"])

p("C26", "Incomparable or unsupported input is rejected, never scored",
  "Every comparison metric rejects segmentations of different lengths, unknown boundary formats, formats it does not support, two datasets of different boundary formats, and missing, surplus or mixed arguments with the library's metric error instead of returning a value, also when only one pair inside a dataset is incomparable. Kappa and pi reject data in which items have different numbers of coders, and kappa rejects items with a single coder. Valid input is never rejected.",
  ["inputs", "configurations"], "all metrics, all formats and argument shapes, all positions of the offending pair",
  "A handful of bad calls are tested.",
  ["util/__init__.py", "similarity/__init__.py", "window/pk.py", "window/windowdiff.py", "agreement/kappa.py", "agreement/pi.py"], [("length and format checks", "similarity/__init__.py:__boundary_statistics__"), ("argument checks", "util/__init__.py:__fnc_metric__")],
  ["exceptions raised"])

p("C27", "Calls have no memory: arguments stay intact, results repeat",
  "No comparison, conversion, agreement or summary call changes the segmentations, datasets, option objects or matrices passed to it, nor the caller's surroundings (precision and rounding of decimal arithmetic, working directory, random state), and no option given to one call affects any later call. The result of every call is a function of its arguments alone (and of the decimal precision in force when it is made, never of one that was in force earlier), so any interleaving and repetition of calls with any options gives the same results as each call alone, in any order of first use of the library's names.",
  ["histories", "inputs"], "all sequences of library calls with any options over shared arguments",
  "Tests call each function in isolation and never inspect arguments afterwards.",
  ["util/__init__.py", "metric.py", "similarity/__init__.py", "window/__init__.py", "agreement/__init__.py", "__init__.py", "compute.py", "similarity/distance/multipleboundary.py"],
  [("per-call copies of default options", "util/__init__.py:__fnc_metric__"), ("fresh option dictionaries", "agreement/__init__.py:__fnc_metric__"), ("fresh difference sets", "similarity/distance/multipleboundary.py:__optional_set_edits__")],
  ["results and arguments along call sequences"])

p("C28", "All ways of passing the same arguments mean the same",
  "Hypothesis and reference passed by position or by keyword, a dataset passed by position or by keyword, and a bare integer in place of a one-segment segmentation give the result of the plain positional call. The first positional argument is the hypothesis and the second the reference, so order-sensitive results (window size of the reference, sides of edits, matrix orientation) follow the names. Options left out take their documented defaults.",
  ["inputs", "configurations"], "all metrics, argument forms and options",
  "Keyword forms are hardly tested, and never for order-sensitive results.",
  ["util/__init__.py", "metric.py", "similarity/__init__.py", "window/__init__.py", "window/windowdiff.py"], [("argument dispatch", "util/__init__.py:__fnc_metric__"), ("defaults", "metric.py:METRIC_DEFAULTS")],
  ["results per argument form"])

p("C29", "Results follow from what a dataset holds, however it came about",
  "Whatever a dataset has been through - built by the constructor or assignment, copied, merged, written and loaded, changed or emptied in part, used before - a metric, agreement coefficient or window size computed from it is the one of its present codings in its present boundary format, for the coders and items it holds now. Computing it changes no dataset.",
  ["histories", "inputs"], "all sequences of dataset operations, JSON writing and loading, and computations with any options",
  "Tests compute from freshly constructed datasets only.",
  ["data/__init__.py", "data/jsonutils.py", "compute.py", "util/__init__.py", "agreement/__init__.py", "window/__init__.py"],
  [("dispatch on the dataset's format", "util/__init__.py:__fnc_metric__"), ("coders in the data", "data/__init__.py:get_coders"), ("options from the dataset", "agreement/__init__.py:__fnc_metric__")],
  ["results along histories of datasets"], [("Dataset", "codings, coders and boundary format", "segeval/data/__init__.py:Dataset")])

p("C30", "Measures and summaries of comparisons follow from what was compared",
  "Precision, recall and F-measure given the boundary confusion matrix of two segmentations - or the matrices a dataset yields, whose keys they keep - are those of the boundary decisions the matrix counts, for one boundary type or averaged. Exchanging the two segmentations exchanges precision and recall of each type and keeps the F-measure; identical segmentations that place a boundary get 1. Summarising the values a dataset yields gives the mean, standard deviation, variance and standard error of the values of exactly the compared pairs, and how many there are. Such a matrix can be read and changed like any other.",
  ["inputs", "configurations"], "all pairs of segmentations, all datasets, all metric options, all averages, classes and beta",
  "Tests compute measures on hand-made matrices, and summarise two fixed datasets; the composition over arbitrary comparisons is not tested.",
  ["ml/__init__.py", "similarity/__init__.py", "util/__init__.py", "util/math.py", "compute.py"],
  [("boundary confusion matrix", "similarity/__init__.py:__boundary_confusion_matrix__"), ("mapping a measure over results", "ml/__init__.py:__value_micro_macro__"), ("statistics", "compute.py:summarize")],
  ["results of measures and summaries given metric results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
