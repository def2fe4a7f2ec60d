S = "Sampled search: bounded sizes and fixed seeds, so no proof; "
TECHNIQUE.update({
"P01": ("property-based testing: random acyclic plugin graphs against a name-by-name reference evaluator", S + "graphs of up to 9 data names and 10 plugins."),
"P04": ("property-based testing: random binnings and events (many exactly on edges) against a reference histogram in double precision", S + "up to some hundred events and a few dozen bins."),
"P06": ("property-based testing: random event tables against reference normalised histograms, metamorphic linearity in the rate", S + "events never exactly on an edge (P04 covers edges)."),
"P07": ("property-based testing: random model and data histograms against the Poisson log likelihood in double precision", S + "single precision tolerances."),
"P10": ("property-based testing: random parameter configurations against reference log priors; seeded statistical tests of the samplers with false alarm probability 1e-9", S + "statistical parts see deviations above the stated sample sizes."),
"P11": ("stateful model-based testing: random operation histories against a dictionary model", S + "histories of bounded length."),
"P28": ("property-based testing and a grid sweep against the quantiles of the two-half-normal distribution", S + "error ratios within the solvable range."),
})
TECHNIQUE.update({
"P02": ("property-based testing: recorded keys of every random draw over random plugin graphs and all shipped simulations; determinism and independence relations", S + "graphs of bounded size, small batches, draws recorded in eager execution."),
"P03": ("property-based testing: random graphs with external inputs and all shipped simulations; perturbation (metamorphic) search for parameters that matter but are not declared needed, or the reverse", S + "a parameter matters only if a sampled perturbation shows it."),
"P05": ("property-based testing: random data and binning instructions against independently computed equiprobable bins and counts", S + "ties and bin counts equal to the number of events are excluded (third-party quirks)."),
"P08": ("property-based testing: random yield points and densities against a double-precision reference; normalisation integrals", S + "single precision tolerances."),
"P09": ("property-based testing: random contexts of several likelihoods, sequences of evaluations against the composed reference posterior", S + "up to 3 likelihoods of 3 components, 5 evaluations."),
"P12": ("property-based testing: random alias and copy instructions against a renaming model and against the likelihood without aliases (differential)", S + "up to 3 likelihoods and a handful of parameters."),
"P13": ("property-based testing: random tables, methods and positions against a double-precision reference interpolation", S + "tables of up to some dozens of points."),
"P14": ("property-based testing: random grids of one to three dimensions against a double-precision reference interpolation, range and node invariants", S + "up to 7 nodes per axis."),
"P15": ("property-based testing: random specifications of maps with uncertainty against a piecewise linear reference", S + "point and regular-grid maps of bounded size."),
"P16": ("stateful property-based testing: random histories of building and reconfiguring, against each instance built alone (differential)", S + "histories of bounded length."),
"P17": ("property-based testing: random sampler arguments, shapes and edge values against support, shape and type invariants", S + "each sampler over the parameter ranges used in simulations."),
"P18": ("seeded statistical property tests: random sampler parameters, samples against exact distributions (Kolmogorov-Smirnov, chi-square, moments) with false alarm probability 1e-9 per test", S + "sees deviations above the resolution of the sample sizes."),
"P19": ("property-based testing: random parameter points, energies and positions through every shipped simulation against conservation laws and bounds", S + "batches of some hundred events; parameters around the shipped ones and over their allowed ranges."),
"P20": ("property-based testing: random inputs of every built-in plugin against a double-precision reference of its documented formula or distribution", S + "the formulas are taken from the documentation and literature the plugins cite."),
"P21": ("property-based testing: random instructions and single-change mutants, also in fresh processes; equal instructions must give equal hashes, each mutant a different one", S + "the listed kinds of change."),
"P22": ("stateful property-based testing: random histories of fitting, continuing, renaming and restoring against a model of the stored chain", S + "short chains of cheap posteriors."),
"P23": ("property-based testing: random priors and models, every stored sample re-evaluated by an independent reference posterior", S + "short chains of cheap deterministic posteriors."),
"P24": ("stateful property-based testing: random sets of existing files and base folders against a reference of the documented precedence", S + "a few names and folders."),
"P25": ("property-based testing: random chains with invalid samples, discard and thin against the chain read directly from the file", S + "bounded chains; plots are only checked to leave data and file unchanged."),
"P26": ("property-based testing: random maps, ranges and contexts against a reference collapse and the set of used files", S + "maps of up to three dimensions and some dozens of nodes."),
"P27": ("property-based testing: random plugin graphs with partially overridden outputs against the reference execution order", S + "timing values are only checked for sign and sums."),
"P29": ("property-based testing: random components and repetitions against the concatenation of single batches (differential)", S + "bounded batches and repetitions."),
"P30": ("stateful property-based testing: random histories of registration, refused ones included, against every component simulated alone", S + "histories of bounded length."),
"P31": ("property-based testing: random plugins with single random defects against a reference of the well-formedness rules", S + "the listed kinds of defect."),
"P32": ("property-based testing: random configurations and components against a reference of used options and table rows", S + "bounded numbers of plugins and options."),
"P33": ("property-based testing: random plugin graphs; nodes and edges parsed from the rendered graph against the reference graph", S + "graphs of bounded size."),
"P34": ("property-based testing: random chains and irregular histograms; data of the drawn artists against independent numpy references (prior densities, autocorrelation time, fractions, rectangles)", S + "judged by artists, not pixels; colours to two per cent."),
"P35": ("property-based testing: random instructions with all kinds of likelihoods; the printed summary, parsed, against the instructions", S + "read as lines 'label: value' below headings."),
"P36": ("property-based testing: the shipped analyses and random variations of their instructions, at random parameters, against a double-precision reference assembled from the instructions and the shipped data, with each component simulated alone", S + "shipped analyses; means of noisy likelihoods over six simulations within twelve standard errors."),
})
