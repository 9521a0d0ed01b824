#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run by hand)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "optbinning/binning/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         note=""):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b)
                                          for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))
    P[-1]["_note"] = note


prop("P01", "Binary binning table accounts for every record exactly once",
     "For any numerical or categorical feature and binary target, every training record is counted in exactly one row of the binning table (a bin, the group of rare categories, a special-code row, or the missing row), the row being the one whose interval or category set contains the record's value, and the Totals row is the sum of the rows. "
     "Event and non-event counts of each row equal the number (or, with integer sample or class weights, the total weight) of the records with that target falling in it. Records removed by the outlier detector are the only ones left out.",
     ["inputs", "configurations"],
     "all features (numerical, categorical; ties, negative, tiny/huge scale), targets, missing/special patterns, special codes as list/array/dict, weights, prebinning methods, solvers, user splits, cat_cutoff, outlier detectors",
     "Tests compare counts on a couple of columns of one breast-cancer data set; ties, empty/pure prebins, weights, and mixtures of special/missing/rare categories are never recounted from raw data.",
     [B + "binning.py", B + "preprocessing.py", B + "binning_statistics.py", B + "prebinning.py", B + "outlier.py"],
     [("record classification", B + "preprocessing.py:split_data"), ("prebin counting and refinement", B + "binning.py:_compute_prebins"), ("bin aggregation", B + "binning_statistics.py:bin_info"), ("table build", B + "binning_statistics.py:BinningTable.build")],
     ["OptimalBinning.splits", "binning_table.build()"])

prop("P02", "Binary binning-table statistics follow their definitions",
     "Every figure in a binary binning table and its analysis is the documented function of the row counts: count share, event rate, Weight of Evidence, information value, Jensen-Shannon contribution, totals, Gini, KS, HHI (and normalised), Hellinger, triangular, Cramer's V, quality score, and the significance tests between neighbouring bins. "
     "Rows that are empty or contain only one class report zero event rate convention, WoE, IV and JS. Formatting options (digits, totals) never change the underlying values.",
     ["inputs", "configurations"],
     "all count vectors reachable by fitting binary data, including zero and single-class rows, special-code dictionaries, with and without totals, both significance tests",
     "Tests pin a few totals (iv, js, gini) of one table; per-row and edge-row values, normalisation and p-values are not recomputed independently.",
     [B + "binning_statistics.py", B + "metrics.py"],
     [("table build", B + "binning_statistics.py:BinningTable.build"), ("analysis", B + "binning_statistics.py:BinningTable.analysis"), ("divergences and indices", B + "metrics.py")],
     ["binning_table.build()", "binning_table.analysis()", "iv/js/gini/ks/quality_score attributes"])

prop("P03", "Binary transform maps each value to its own bin's statistic",
     "Transforming any vector returns, for each value, the WoE, event rate, index or label of the binning-table row that contains it: intervals are closed on the left and open on the right, and every category maps to its own group. "
     "Missing and special values get the requested constant, or their row's empirical statistic, index or label (per special-code group); categories never seen in training get the documented default (mean event rate, zero WoE, index -1, label 'unknown') or the user's value, independent of the treatment of missing and special values. "
     "Fit-then-transform equals the combined call, and the result does not depend on which other values are in the vector.",
     ["inputs", "configurations"],
     "all fitted binnings and all query vectors, incl. values equal to split points, beyond training range, infinities, unseen categories, special/missing; all metrics and metric_special/metric_missing/cat_unknown options",
     "Tests transform a handful of values; boundary equality, mixtures of options, unseen categories and special-code dictionaries are barely sampled.",
     [B + "transformations.py", B + "binning.py", B + "binning_statistics.py"],
     [("binary transform", B + "transformations.py:transform_binary_target"), ("value assignment", B + "transformations.py:_apply_transform"), ("category groups", B + "binning_statistics.py:bin_categorical")],
     ["OptimalBinning.transform", "fit_transform"])

prop("P04", "Binary solution honours every requested constraint",
     "Whenever the solver reports success after having at least two pre-bins to combine, the bins in the resulting table satisfy every requested constraint: number of bins, bin size, events and non-events per bin, monotonic trend of the event rate (ascending, descending, peak, valley, convex, concave, and for automatic modes one of the shapes that mode may choose), minimum event-rate difference between consecutive bins, maximum p-value, and fixed user splits. "
     "If no binning satisfies them, the status says infeasible and the result is a single bin.",
     ["inputs", "configurations"],
     "all binary data sets and all combinations of the constraint parameters, both mathematical-programming solvers, all divergences",
     "Tests check a trend or size bound on one data set, one constraint at a time; interactions and near-infeasible settings are not explored.",
     [B + "cp.py", B + "mip.py", B + "model_data.py", B + "auto_monotonic.py", B + "binning.py"],
     [("CP formulation", B + "cp.py:BinningCP.build_model"), ("MIP formulation", B + "mip.py:BinningMIP.build_model"), ("problem data and p-value exclusions", B + "model_data.py"), ("trend choice", B + "auto_monotonic.py")],
     ["OptimalBinning.status", "OptimalBinning.splits", "binning_table.build()"])

prop("P05", "A binary binning reported optimal is the best one",
     "When the status is optimal, no other grouping of consecutive pre-bins satisfying the same constraints has a larger requested divergence (information value, Jensen-Shannon, Hellinger or triangular), beyond solver rounding. "
     "Both mathematical-programming solvers reach the same objective, and a problem reported infeasible has no feasible grouping.",
     ["inputs", "configurations"],
     "all sets of pre-bins supplied as user splits (numerical and categorical) with small numbers of pre-bins, all constraint combinations, all divergences, both solvers",
     "Tests pin the optimum of one data set per option; global optimality over arbitrary inputs and agreement between formulations need exhaustive comparison.",
     [B + "cp.py", B + "mip.py", B + "model_data.py", B + "binning.py"],
     [("objective coefficients", B + "model_data.py:model_data"), ("CP formulation", B + "cp.py"), ("MIP formulation", B + "mip.py")],
     ["OptimalBinning.splits", "OptimalBinning.status", "binning_table.iv"])

prop("P06", "Bins are an ordered disjoint cover built from permitted cut points",
     "Split points are finite, strictly increasing, separate the clean values observed in training, and respect the requested rounding; every category seen in training appears in exactly one group, and categories below the frequency cut-off are exactly those in the rare group. "
     "With user-defined splits or category groups only those cuts or unions of those groups are used, and splits marked fixed are always present. Category groups follow the order of the categories' mean target. Pre-binning never exceeds the requested number of pre-bins (MDLP chooses its own number: its cut points are those of the documented recursion) and, for tree-based methods, each pre-bin holds the requested minimum share.",
     ["inputs", "configurations"],
     "all features and prebinning methods (cart, mdlp, quantile, uniform) for binary, continuous and multiclass targets; user splits/fixed flags; split_digits; cat_cutoff",
     "Tests look at the splits of one smooth column; ties, rounding collisions and rare-category mixes are not sampled.",
     [B + "prebinning.py", B + "mdlp.py", B + "preprocessing.py", B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
     [("pre-binning", B + "prebinning.py:PreBinning.fit"), ("MDLP recursion", B + "mdlp.py:MDLP._recurse"), ("rare categories", B + "preprocessing.py:categorical_cutoff"), ("user splits", B + "preprocessing.py:preprocessing_user_splits_categorical")],
     ["splits", "binning_table.build()", "MDLP.splits"])

prop("P07", "Fitting is repeatable and leaves inputs and settings untouched",
     "Fitting an estimator never modifies the arrays, frames, weights, special codes or user splits passed to it nor its constructor parameters; fitting twice on the same data, or first on other data, or fitting a clone with the same parameters, gives the same splits, status, table and transform as a fresh fit. "
     "Building or analysing tables and transforming are read-only: they may be repeated, interleaved or called with other options in any order without changing later results.",
     ["histories", "inputs", "configurations"],
     "all sequences of fit / transform / build / analysis / get_params / clone calls on one instance over several data sets; binary, continuous, multiclass, 2D, scenario, process estimators",
     "Tests fit each instance once; stale state across refits and in-place mutation need multi-step histories.",
     [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "preprocessing.py", B + "mdlp.py", B + "multidimensional/binning_2d.py", B + "binning_process.py"],
     [("fit state", B + "binning.py:OptimalBinning._fit"), ("sample weights", B + "preprocessing.py:split_data"), ("fixed user splits bookkeeping", B + "binning.py:_compute_prebins")],
     ["splits", "status", "binning_table.build()", "transform", "get_params"])

prop("P08", "Equivalent inputs give equivalent binnings",
     "Permuting the training rows, changing the container (list, array, series) or numeric type without changing values, rescaling a numeric feature by a power of two, renaming categories order-preservingly, or renaming the variable leaves counts, statuses and transformed values unchanged, with split points moved accordingly. "
     "Recoding a special value as another special value of the same group changes nothing, and swapping event labels swaps event and non-event columns of the pre-bins.",
     ["inputs"],
     "all data sets and pairs of equivalent presentations of them; binary, continuous and multiclass targets",
     "Tests use a single presentation of one data set; invariance relates pairs of runs.",
     [B + "binning.py", B + "preprocessing.py", B + "transformations.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
     [("pre-processing", B + "preprocessing.py:split_data"), ("pre-binning", B + "prebinning.py"), ("categorical ordering", B + "preprocessing.py:categorical_transform")],
     ["splits", "binning_table.build()", "transform"])

prop("P09", "Continuous binning table accounts for and describes every record",
     "For a continuous target each training record is counted in exactly one table row, the row containing its value, and each row's count, sum, mean, standard deviation, minimum, maximum, zero count, count share, WoE (mean minus overall mean) and IV (absolute WoE times share), and the Totals row, are those of the target values of its records. "
     "This holds for special-code groups, missing and rare-category rows, and when the data yields one single bin.",
     ["inputs", "configurations"],
     "all numerical/categorical features with continuous targets of any sign and scale, missing/special patterns, prebinning methods, user splits, cat_cutoff, outlier detectors",
     "The continuous tests in the repository depend on a data set that cannot be loaded any more, so none of this is exercised; recounting needs generated data.",
     [B + "continuous_binning.py", B + "binning_statistics.py", B + "preprocessing.py"],
     [("prebin statistics", B + "continuous_binning.py:_compute_prebins"), ("aggregation", B + "binning_statistics.py:continuous_bin_info"), ("table", B + "binning_statistics.py:ContinuousBinningTable")],
     ["ContinuousOptimalBinning.splits", "binning_table.build()"])

prop("P10", "Continuous transform maps each value to its own bin's mean",
     "Transforming any vector with a continuous-target binning returns for each value the mean, index or label of the table row containing it, with left-closed right-open intervals; missing and special values get the requested constant or their row's mean, index or label, and unseen categories the overall mean or the user's value. "
     "Fit-then-transform equals the combined call.",
     ["inputs", "configurations"],
     "all fitted continuous binnings and query vectors with boundary values, unseen categories, missing/special; all metrics/options",
     "No runnable test covers continuous transform with missing, special or unseen categories.",
     [B + "transformations.py", B + "continuous_binning.py"],
     [("continuous transform", B + "transformations.py:transform_continuous_target")],
     ["ContinuousOptimalBinning.transform"])

prop("P11", "Continuous solution honours constraints and is optimal",
     "When at least two pre-bins exist and the solver succeeds, the resulting bins satisfy the requested number and size of bins, minimum mean difference, maximum p-value and monotonic trend of the mean target; if nothing satisfies them the status is infeasible and one bin is returned. "
     "A status of optimal means that no other grouping of consecutive pre-bins meeting the constraints has a larger separation objective.",
     ["inputs", "configurations"],
     "all continuous targets (any sign, scale, noise), prebin sets and constraint combinations",
     "Continuous-target tests do not run; optimality and joint feasibility need exhaustive comparison on generated data.",
     [B + "continuous_cp.py", B + "model_data.py", B + "continuous_binning.py", B + "auto_monotonic.py"],
     [("CP formulation", B + "continuous_cp.py"), ("problem data", B + "model_data.py:continuous_model_data"), ("trend choice", B + "auto_monotonic.py:auto_monotonic_continuous")],
     ["ContinuousOptimalBinning.status", "splits", "binning_table.build()"])

prop("P12", "Multiclass binning table and transform agree with the data",
     "For a multiclass target every record is counted once, under its class, in the row containing its value; shares, per-class event rates, totals, and the analysis (Jensen-Shannon, HHI, Cramer's V, quality score) follow from these counts. "
     "The transform returns each row's mean or class-weighted mean of one-versus-rest WoE, index or label, with the same rules for boundaries, special and missing values as the binary case.",
     ["inputs", "configurations"],
     "all numerical features and targets with 2-5 classes of any integer labels (each class having at least one clean value), missing/special patterns, prebinning methods, metrics",
     "Tests use the wine data set with default options; rare classes, special/missing rows and row-wise values are not recounted.",
     [B + "multiclass_binning.py", B + "binning_statistics.py", B + "transformations.py"],
     [("prebin counting", B + "multiclass_binning.py:_compute_prebins"), ("table", B + "binning_statistics.py:MulticlassBinningTable"), ("transform", B + "transformations.py:transform_multiclass_target")],
     ["MulticlassOptimalBinning.splits", "binning_table.build()", "transform"])

prop("P13", "Multiclass solution honours constraints and is optimal",
     "When at least two pre-bins exist and the solver succeeds, bins satisfy the requested number and size of bins, maximum p-value, and the trend requested for each class (including automatic per-class choice); infeasible problems are reported as such with a single bin. "
     "A status of optimal means no other grouping of consecutive pre-bins meeting the constraints has a larger total one-versus-rest divergence, and both solvers agree.",
     ["inputs", "configurations"],
     "all multiclass data sets, per-class trend lists, constraint combinations and both solvers",
     "Tests run one data set per option and never compare with exhaustive search.",
     [B + "multiclass_cp.py", B + "multiclass_mip.py", B + "model_data.py", B + "multiclass_binning.py"],
     [("CP formulation", B + "multiclass_cp.py"), ("MIP formulation", B + "multiclass_mip.py"), ("problem data", B + "model_data.py:multiclass_model_data")],
     ["MulticlassOptimalBinning.status", "splits"])

prop("P14", "Scenario-based binning is consistent with every scenario",
     "A binning fitted on several scenarios has one common set of split points; each scenario's table counts each of that scenario's records exactly once in the row containing it, the aggregate table is the sum over scenarios, and when solved successfully every scenario satisfies the requested trend (with one change point shared by all scenarios for peak and valley) and per-bin constraints, else the status says infeasible. "
     "Among the groupings feasible in every scenario an optimal solution has the largest weighted expected information value. Transforms agree with the aggregate table.",
     ["inputs", "configurations"],
     "all collections of 1-4 scenarios of differing size and distribution, optional scenario weights, missing/special values, trends and size constraints",
     "Tests use two or three scenarios of one generated data set and only check the splits.",
     [B + "uncertainty/binning_scenarios.py", B + "cp.py", B + "model_data.py"],
     [("prebinning and counting", B + "uncertainty/binning_scenarios.py:_compute_prebins"), ("scenario formulation", B + "cp.py:build_model_scenarios")],
     ["SBOptimalBinning.splits", "binning_table.build()", "binning_table_scenario(i).build()", "transform"])

prop("P15", "Two-dimensional bins partition the plane and count every record",
     "For binary and continuous targets, every record with two clean coordinates belongs to exactly one two-dimensional bin of the table, each bin being a rectangle of the two variables' pre-bins (or category groups), rectangles never overlap and together cover the plane; records with a missing coordinate are in the Missing row, others with a special coordinate in the Special row. "
     "Row counts, event rates or means, WoE, IV, JS and Totals follow from the records, and the transform returns the statistic of the rectangle containing each pair.",
     ["inputs", "configurations"],
     "all pairs of features (numerical/categorical), binary and continuous targets, missing/special in either variable, prebinning methods, strategies and solvers",
     "Tests fit one pair of columns; table row/rectangle consistency and transform are not recounted.",
     [B + "multidimensional/binning_2d.py", B + "multidimensional/continuous_binning_2d.py", B + "multidimensional/binning_statistics_2d.py", B + "multidimensional/transformations_2d.py", B + "multidimensional/model_data_2d.py", B + "multidimensional/preprocessing_2d.py"],
     [("rectangle enumeration", B + "multidimensional/model_data_2d.py"), ("table", B + "multidimensional/binning_statistics_2d.py"), ("transform", B + "multidimensional/transformations_2d.py")],
     ["OptimalBinning2D.splits", "binning_table.build()", "transform"])

prop("P16", "Two-dimensional solutions honour constraints and are optimal",
     "When a two-dimensional binning is solved, its rectangles satisfy the requested number and size of bins, event/non-event counts, and, along each axis with a requested monotonic trend, that trend with the requested minimum difference between neighbouring rectangles. "
     "With the grid strategy and status optimal no other set of admissible rectangles covering the pre-bin grid has a larger objective, and both solvers agree; impossible requests are reported infeasible without crashing.",
     ["inputs", "configurations"],
     "all small grids with generated records, constraint combinations, binary and continuous targets, both solvers",
     "Tests run one pair of columns with a few settings; exhaustive comparison over tilings is never made.",
     [B + "multidimensional/cp_2d.py", B + "multidimensional/mip_2d.py", B + "multidimensional/model_data_2d.py"],
     [("CP formulation", B + "multidimensional/cp_2d.py"), ("MIP formulation", B + "multidimensional/mip_2d.py"), ("rectangle data", B + "multidimensional/model_data_2d.py")],
     ["OptimalBinning2D.status", "binning_table.build()"])

prop("P17", "Piecewise binary binning is the documented regression over the plain binning",
     "A piecewise binning of a binary target finds the same split points as a plain binning of the same records (or equally good ones) and predicts for each clean value the polynomial of its bin shown in the table, clipped to the bounds requested of the transform; the polynomials are those of the documented robust regression of the estimator's probabilities, for degrees 0 and 1 continuous across split points when continuity is requested and following the requested trend. "
     "Its table counts every record exactly once by the reported split points, and Gini, KS, Brier score and HHI of the report describe the predictions. The WoE metric is the log-odds transform of the same event rate, and special, missing values get the requested constant or empirical value.",
     ["inputs", "configurations"],
     "all numeric features and binary targets, degrees, continuity, bounds, trends, objectives, special/missing patterns",
     "Tests fit one column per objective and check few values; bounds, continuity and trend are claims about every query point.",
     [B + "piecewise/binning.py", B + "piecewise/base.py", B + "piecewise/transformations.py", B + "piecewise/binning_statistics.py"],
     [("fit", B + "piecewise/base.py"), ("transform", B + "piecewise/transformations.py"), ("table", B + "piecewise/binning_statistics.py")],
     ["OptimalPWBinning.transform", "binning_table.build()", "splits"])

prop("P18", "Piecewise continuous binning is the documented regression over the plain binning",
     "A piecewise binning of a continuous target finds the same split points as a plain continuous binning (or equally good ones) and predicts for each clean value the polynomial of its bin shown in the table, clipped to the requested bounds; the polynomials are those of the documented robust regression of the target within the bounds, for degrees 0 and 1 continuous across split points when requested and following the requested trend. Its table counts and describes every record exactly once, and the reported regression metrics describe the predictions. "
     "Special and missing values get the requested constant or their empirical mean.",
     ["inputs", "configurations"],
     "all numeric features and continuous targets, degrees, continuity, bounds, trends, special/missing patterns",
     "The continuous piecewise tests need an unavailable data set and do not run.",
     [B + "piecewise/continuous_binning.py", B + "piecewise/base.py", B + "piecewise/transformations.py", B + "piecewise/binning_statistics.py"],
     [("fit", B + "piecewise/continuous_binning.py"), ("transform", B + "piecewise/transformations.py")],
     ["ContinuousOptimalPWBinning.transform", "binning_table.build()", "splits"])

prop("P19", "Quantile sketch answers stay within the promised rank error",
     "After any sequence of additions and merges, a quantile sketch has counted exactly the values given to it, keeps the true minimum and maximum, and any quantile it returns is a value whose rank differs from the exact rank by at most the configured error times the count. "
     "Merging a sketch leaves the merged-in sketch unchanged.",
     ["histories", "inputs"],
     "all sequences of add / merge / quantile over any value streams, ordered, reversed, constant or duplicated, and all error settings",
     "Tests add one random array; error bounds quantify over all streams and merge histories.",
     [B + "distributed/gk.py"],
     [("insertion and compression", B + "distributed/gk.py:GK"), ("merge", B + "distributed/gk.py:GK.merge")],
     ["GK.quantile", "len(GK)"])

prop("P20", "Streaming sketch binning equals binning of all data seen",
     "However the data are split into batches, added and merged across sketches, a binning sketch counts each record exactly once (clean by value or category, special, missing), merging leaves the other sketch usable and unchanged, and the solved binning table's totals equal the totals of all records added. "
     "Below the sketch's compaction threshold the result equals that of a single sketch given all the data; the transform agrees with the table. Sketches of equal settings can be merged, those of different special codes are refused; the underlying count sketches keep the same promises when used directly.",
     ["histories", "inputs", "configurations"],
     "all sequences of add / merge / solve / transform over several sketches, numerical and categorical, with special, missing values and rare categories, both sketch methods; both classes occur among the clean records (t-digest: totals only)",
     "Tests add one or two large batches; sequences with empty batches, only-missing batches and merges in both directions are not sampled.",
     [B + "distributed/binning_sketch.py", B + "distributed/bsketch.py", B + "distributed/gk.py"],
     [("sketch counts", B + "distributed/bsketch.py"), ("merge", B + "distributed/bsketch.py:BSketch.merge"), ("solve", B + "distributed/binning_sketch.py:solve")],
     ["OptimalBinningSketch.binning_table.build()", "transform", "splits"])

prop("P21", "Sketch process equals independent per-variable sketches",
     "A binning process sketch gives, for every variable, the same binning, table and transformed column as an individual binning sketch with that variable's options and transform options fed the same batches; merging two processes equals feeding one process all batches. "
     "Selection criteria are applied to these statistics, and only selected variables are transformed. (Of equally good solutions any may be returned.)",
     ["histories", "inputs", "configurations"],
     "all frames of mixed variables, batchings, merges, per-variable options, selection criteria",
     "Tests use one data frame with default options.",
     [B + "distributed/binning_process_sketch.py", B + "distributed/binning_sketch.py"],
     [("process", B + "distributed/binning_process_sketch.py")],
     ["BinningProcessSketch.transform", "get_binned_variable", "summary"])

prop("P22", "Binning process equals independent per-variable binnings",
     "A binning process gives, for each variable, the same status, splits and table as an individual binning with the process-wide options overridden by that variable's own options, for binary, continuous and multiclass targets and mixed variable types, regardless of the number of jobs. "
     "Its transform outputs, for each selected variable and in order, exactly the column the individual binning would produce under that variable's own transform options falling back to the call's options. (Of equally good solutions any may be returned.)",
     ["inputs", "configurations"],
     "all frames/arrays of mixed variables, target types, per-variable fit and transform options, n_jobs, transform metrics",
     "Tests use default options for all but one variable; interference between variables' options needs combinations.",
     [B + "binning_process.py"],
     [("per-variable fit", B + "binning_process.py:_fit_variable"), ("transform", B + "binning_process.py:_transform")],
     ["BinningProcess.transform", "get_binned_variable", "summary"])

prop("P23", "Binning process selects exactly the variables that qualify",
     "With selection criteria the supported variables are exactly those whose statistics lie within every min/max bound, after that the best (or worst) k or fraction by the requested strategy, plus any fixed variables; without criteria all variables are selected. Metrics are applied in the order of the summary columns, bounds first. "
     "The summary reports each variable's statistics as its own binning table does, and updating a variable's binning updates them.",
     ["inputs", "configurations", "histories"],
     "all frames and selection criteria over available metrics, strategies, top values (count or fraction), fixed variables, and update histories",
     "Tests try two criteria on one data set.",
     [B + "binning_process.py"],
     [("selection", B + "binning_process.py:_binning_selection"), ("statistics", B + "binning_process.py:_fit"), ("update", B + "binning_process.py:update_binned_variable")],
     ["get_support", "summary"])

prop("P24", "Persisted and on-disk binning equals in-memory binning",
     "Saving and loading a binning process, fitting or transforming from a file on disk in any chunk size, fitting from a dictionary of existing binnings, or serialising a binning to JSON and reading it back yields objects that report the same tables and transform every record identically to the original. "
     "Unsupported inputs are rejected with an error rather than silently giving other results.",
     ["inputs", "configurations", "histories"],
     "all fitted processes/binnings (numerical/categorical, special codes list or dictionary), chunk sizes, csv and parquet-free paths, JSON round trips",
     "Tests round-trip one file; chunk boundaries, special codes, categories and dictionary variants are not covered.",
     [B + "binning_process.py", B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
     [("disk fit/transform", B + "binning_process.py:_transform_disk"), ("save/load", B + "binning_process.py:save"), ("JSON", B + "binning.py:to_json")],
     ["BinningProcess.fit_disk", "transform_disk", "save/load", "to_json/read_json"])

prop("P25", "Scorecard score equals the sum of the table's points",
     "For every record the scorecard's score is the intercept adjustment plus the sum over selected variables of the points shown in the scorecard table for the row containing that variable's value, with special, missing and unseen values treated as requested; points are the fitted coefficient times the row's statistic, transformed by the scaling. "
     "Predictions and probabilities are those of the fitted estimator on the binned data.",
     ["inputs", "configurations"],
     "all frames, binary and continuous targets, scaling methods, reverse flag, intercept-based or not, rounding, empirical or constant special/missing metrics",
     "Tests check one data set with a few settings and pin a few scores.",
     ["optbinning/scorecard/scorecard.py", "optbinning/scorecard/rounding.py"],
     [("fit and points", "optbinning/scorecard/scorecard.py:_fit"), ("score", "optbinning/scorecard/scorecard.py:score")],
     ["Scorecard.score", "Scorecard.table", "predict", "predict_proba"])

prop("P26", "Scorecard scaling preserves the model's ranking and calibration",
     "Under points-to-double-odds scaling, scores are an affine function of the model's log-odds with the requested odds at the reference score and slope points-to-double, and under min-max scaling scores lie within the requested range and attain its ends at the table's extreme rows; the reverse flag flips the direction. "
     "Score order is a strictly monotone function of the model's prediction before rounding; rounding gives integer points within one of the unrounded ones (and inside the range for min-max).",
     ["inputs", "configurations"],
     "all frames, targets, scaling parameters, reverse flags, rounding and intercept-based options",
     "Tests check the extremes of one data set.",
     ["optbinning/scorecard/scorecard.py", "optbinning/scorecard/rounding.py"],
     [("scaling", "optbinning/scorecard/scorecard.py:_compute_scorecard_points"), ("rounding", "optbinning/scorecard/rounding.py")],
     ["Scorecard.score", "Scorecard.table"])

prop("P27", "Monitoring reports exact stability statistics of both samples",
     "The system stability report counts every record of the actual and expected samples once, in the score interval containing it, and its PSI values, event rates and test statistics follow from these counts; identical samples have zero PSI. "
     "The per-variable report does the same over each variable's scorecard rows (special and missing rows included), and the target analysis, the performance measures and the printed report equal those of the standard definitions.",
     ["inputs", "configurations"],
     "all fitted scorecards and pairs of samples (incl. out-of-range scores, missing/special values absent from one sample), psi methods, bin numbers, binary and continuous targets",
     "Tests run one pair of samples and check a couple of cells.",
     ["optbinning/scorecard/monitoring.py"],
     [("system PSI", "optbinning/scorecard/monitoring.py:_fit_system"), ("variable PSI", "optbinning/scorecard/monitoring.py:_fit_variables")],
     ["psi_table", "psi_variable_table", "tests_table", "system_stability_report"])

prop("P28", "Counterfactuals are valid and as requested",
     "Every returned counterfactual is one the scorecard itself assigns the requested outcome, changes only actionable variables and at most the allowed number of them, uses values that are bins of the scorecard table, and several counterfactuals differ in the changed variables or in every value when these hard diversity constraints are requested. The outcome shown is the scorecard's. "
     "When reported optimal, no other combination of bins meeting the requirements has a better weighted objective (or, hierarchically, a better first objective, and second within the tolerance); when reported infeasible, no combination meets the requirements. Outcome probability is approximated in the objective diff_outcome only.",
     ["inputs", "configurations"],
     "all fitted scorecards (binary probability/binary outcome, continuous), queries, numbers of counterfactuals, objectives, hard/soft constraints, actionable sets",
     "The counterfactual tests cannot be run in this environment (missing data set); validity quantifies over all queries.",
     ["optbinning/scorecard/counterfactual/counterfactual.py", "optbinning/scorecard/counterfactual/mip.py", "optbinning/scorecard/counterfactual/multi_mip.py", "optbinning/scorecard/counterfactual/model_data.py", "optbinning/scorecard/counterfactual/problem_data.py"],
     [("single model", "optbinning/scorecard/counterfactual/mip.py"), ("multiple model", "optbinning/scorecard/counterfactual/multi_mip.py")],
     ["Counterfactual.generate", "display", "status"])

prop("P29", "Outlier detectors flag exactly the values their rule names",
     "The interquartile and interval rule flags exactly the values outside the equal-tailed or highest-density interval extended by the factor; the modified z-score rule flags exactly those whose score exceeds the threshold; the y-quantile rule applies the chosen rule to the targets inside each quantile bin. "
     "Flags do not depend on the order of the data, and mask and index forms agree.",
     ["inputs", "configurations"],
     "all numeric samples (ties, constants, heavy tails) and all detector parameters",
     "The outlier tests need an unavailable data set and do not run.",
     [B + "outlier.py"],
     [("range", B + "outlier.py:RangeDetector"), ("z-score", B + "outlier.py:ModifiedZScoreDetector"), ("y-quantile", B + "outlier.py:YQuantileDetector")],
     ["get_support"])

prop("P30", "Performance metrics equal their textbook definitions",
     "The model performance measures and plots' underlying curves (Gini, KS, RMSE, error, explained-variance-type regression measures) equal independent definitions for any scores and targets, including ties. "
     "Divergence and concentration measures are non-negative, zero for identical distributions, symmetric where documented and within documented ranges.",
     ["inputs"],
     "all score/target vectors and probability distributions",
     "Tests pin single values.",
     ["optbinning/metrics/classification.py", "optbinning/metrics/regression.py", B + "metrics.py"],
     [("classification", "optbinning/metrics/classification.py"), ("regression", "optbinning/metrics/regression.py"), ("divergences", B + "metrics.py")],
     ["gini", "ks", "regression metrics", "jeffrey/jensen_shannon/hellinger/triangular/hhi"])

prop("P31", "Invalid requests and unfitted use are refused",
     "Every constructor parameter outside its documented domain makes fitting (or building) raise a value or type error, for every estimator and every parameter, without leaving the instance marked as fitted; using results before fitting raises a not-fitted error. "
     "Documented values are accepted, an instance which refused a value works once it is corrected, and the options of the result methods (metrics, table and analysis options, plots, generation constraints) are validated likewise.",
     ["configurations", "histories"],
     "all public estimators x parameters x values inside and outside the documented domain; all result methods before fitting",
     "Tests enumerate some invalid values once per class; domain boundaries and later-added estimators are uneven.",
     [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "binning_process.py", B + "uncertainty/binning_scenarios.py", B + "multidimensional/binning_2d.py", "optbinning/scorecard/scorecard.py", "optbinning/scorecard/monitoring.py"],
     [("parameter validation", "_check_parameters of each module")],
     ["fit", "transform", "build"])

prop("P32", "Plots and printed reports show the fitted results",
     "Every plot of a binning table, a 2D table, a piecewise table, the PSI table and the sketch progress draws the values of the tables it stands for: bar heights and positions are the counts per bin, the line is the requested metric, hidden special or missing bins take their label and their metric with them, the piecewise curve is the fitted function, the 2D grid assigns to each cell the value of the bin containing it. "
     "information() reports the status, options, solver sizes, numbers of records, variables and selections which the fitted object has.",
     ["inputs", "configurations"],
     "fitted tables of every estimator kind; metric, style, add_special, add_missing and show_bin_labels; print levels 0 to 2",
     "Tests call plot and information once or twice and look at nothing but the absence of an exception.",
     [B + "binning_statistics.py", B + "piecewise/binning_statistics.py", B + "multidimensional/binning_statistics_2d.py", B + "distributed/plots.py", "optbinning/scorecard/plots.py", "optbinning/information.py"],
     [("table plots", "BinningTable.plot"), ("2D plots", "BinningTable2D.plot"), ("reports", "information")],
     ["plot", "information"])

prop("P33", "Checked input is refused when invalid and changes nothing otherwise",
     "With check_input=True every estimator, binning process, sketch and scorecard refuses with a ValueError features holding infinite values, targets with missing entries and targets or weights whose length differs from the features, and transform refuses infinite values in the columns it uses; a refused instance is as usable as before. "
     "On valid data, whatever its container, dtypes and column order, checking changes neither the arguments nor the fitted model: tables, splits, dtypes, summaries, selections and transforms are those of the unchecked fit.",
     ["inputs", "configurations"],
     "every estimator kind with drawn options; one spoiled entry of a drawn kind and place per case; arrays, lists, Series, mixed and permuted DataFrames",
     "Tests call check_input=True with the same clean all-numeric data on a few estimators; none compares the checked fit of a mixed or reordered DataFrame with the unchecked one.",
     [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "binning_process.py", B + "preprocessing.py", B + "transformations.py", B + "multidimensional/preprocessing_2d.py", B + "multidimensional/transformations_2d.py", B + "piecewise/transformations.py", B + "distributed/binning_sketch.py", "optbinning/scorecard/scorecard.py"],
     [("splitting of samples", "split_data"), ("process input", "BinningProcess._fit")],
     ["fit", "transform", "add", "check_input"])


# ---------------------------------------------------------------------------
TECH = ("property-based testing: Hypothesis-generated inputs, configurations "
        "and operation histories checked against an independent oracle, "
        "failures shrunk to a replay file")
NOTES = {}
for _p in ("P04", "P05", "P13"):
    NOTES[_p] = (
        "random search within the generators' bounds (see DESIGN.md); one "
        "known finding (cuts forbidden by the trend pre-processing) is "
        "recognised by its exact condition and reported, not judged")
NOT_YET = "no check registered yet"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "_note"}
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "vf", "props",
                                       pid.lower() + ".py")):
            checks.append(dict(
                property=pid, quick_cmd="./run.sh {}".format(pid),
                thorough_cmd="./run.sh {} --tier thorough".format(pid),
                technique=TECH, level="exploration",
                level_note=NOTES.get(pid, p["_note"] or
                                     "random search within the generators' "
                                     "bounds (see DESIGN.md); seeded by "
                                     "VERIF_SEED")))
        else:
            na.append(dict(property=pid, reason=NOT_YET))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
