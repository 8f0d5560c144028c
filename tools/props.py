#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, claimed=True, note="", technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, claimed=claimed, note=note, technique=technique, na=na))


S = "src/"
prop("P01", "Bins tile every axis and global bin indexing is a bijection",
     "For every axis of adjoining bins and every axis collection, the bins tile the range: a value belongs to exactly the bin whose [low, high) interval holds it, values below or above the range go to the first or last bin, and each bin's centre and width are those of its own edges. Flattening per-axis indices to a global bin and unpacking it again are mutually inverse over all bins, in row-major order with the last axis fastest, and every query by global bin agrees with the per-axis bins. Malformed binnings (no bins, empty range, disordered or unequal numbers of edges), repeated axis names, and edge, centre or axis queries that do not exist or have the wrong dimension are refused with an exception; a refused single addition changes nothing.",
     ["inputs", "configurations"], "every axis layout (uniform or variable, 1-4 axes here) and every query point, bin and dimension",
     "the unit tests check a 3x3 and a 4x4 layout at a few points; every number of axes, bin count and boundary value matters",
     ["src/histogram/BinAxis.cpp", "src/histogram/AxisCollection.cpp"],
     [("bin lookup", "BinAxis::FindBin"), ("row-major flattening", "AxisCollection::FlattenIndices / UnpackIndices / UnflattenIndex")],
     ["return values and exceptions of BinAxis and AxisCollection"])
prop("P02", "Histogram contents equal an array model over any operation history",
     "After any sequence of fills (by vector, by axis name, with weights), sets, additions, scalings, normalisation, padding, emptying and bin-wise arithmetic with another histogram, every bin content and the integral equal what a plain array indexed by bin would hold. Normalising makes the integral one without changing ratios, padding touches exactly the empty bins, means and variances are the content-weighted moments of the bin centres, and the one-dimensional bounded integral sums the bins from the one holding the lower to the one holding the upper limit. Out-of-range bins, wrong dimensions, incomplete named fills and mismatched binnings are refused with an exception and leave the contents unchanged.",
     ["inputs", "histories"], "every binning and every history of operations",
     "the unit tests fill one or two fixed histograms; nothing checks histories, variable binnings, out-of-range access or weights in general",
     ["src/histogram/Histogram.cpp"],
     [("contents", "Histogram::Fill / SetBinContent(s) / AddBinContent / Scale / Normalise / Add / Multiply / Divide / AddPadding")],
     ["Histogram::GetBinContents, GetBinContent, Integral, Means, Variances"])
prop("P03", "Projections, slices and lattice lookups keep every bin's identity",
     "Projecting a histogram onto any subset of its axes in any order gives, in each bin, the sum of exactly the original bins with those indices; slicing at fixed bins gives, in each bin, exactly the original content at the combined indices, whatever the number of free axes. The lattice lookup returns, for a point between bin centres, the contents and positions of the 2^N surrounding bin centres in binary order of the axes. The original histogram is unchanged, and unknown axes, fixed bins that do not exist, slices with no free axis and points outside the lattice are refused with an exception.",
     ["inputs", "configurations"], "every histogram of 1-4 axes, every axis subset and order, every fixed-bin choice, every point",
     "the slice tests only compare sums of whole slices and the projection tests use one 2-D or 3-D layout each",
     ["src/histogram/Histogram.cpp"],
     [("projection", "Histogram::Marginalise"), ("slice", "Histogram::GetSlice / Recurse"), ("lattice", "Histogram::GetLatticePointValues")],
     ["bin contents of the returned histograms; returned lattice values and positions"])
prop("P05", "Event distributions give the probability of the right bin for an event",
     "A binned, analytic or composite event distribution evaluates an event by picking, by name, exactly the observables it is defined on, in its own order, whatever else the event carries and in whatever order; a binned one returns the share of its integral in the bin holding that point, an analytic one its function over its integral norm, a composite one the product of its factors. Projecting or slicing a binned distribution keeps each remaining bin under its own observable and keeps the names consistent. Normalising makes the integral one, filling and summing go to the same bins the evaluation reads, and copies and clones evaluate identically and independently.",
     ["inputs", "configurations"], "every observable subset and order, binning, event and composition of distributions",
     "the unit tests use one or two observables in a single order",
     ["src/dist/BinnedED.cpp", "src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/data/Event.cpp", "src/data/ObsSet.cpp"],
     [("observable mapping", "ObsSet / Event::ToObsSet / BinnedED::Probability"), ("composition", "operator* / CompositeED::Probability")],
     ["Probability, Integral, GetBinContents, Marginalise, GetSlice"])
prop("P06", "Shift, scale and scale-function systematics redistribute bin contents by overlap",
     "Applying a shift, linear scale or scale-function systematic moves every bin's content along the transformed observable to the bins its transformed interval overlaps, in proportion to the overlap, leaving bins of all other observables untouched; content transformed outside the axis range is lost and the reported norm is the remaining fraction. Every column of the response sums to the contained fraction (one when nothing leaves the range), the identity parameters give the identity, and the result does not depend on where the transformed observable sits among the distribution's observables. The distorted distribution is normalised unless a norm is asked for, in which case its integral is returned; invalid settings are refused, and copies act like the original and independently of it.",
     ["inputs", "configurations"], "every binning, position of the transformed observable, parameter value and content",
     "the unit tests compare one or two parameter values on a one- or two-dimensional uniform binning",
     ["src/systematic/Shift.cpp", "src/systematic/Scale.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Systematic.cpp"],
     [("overlap", "Shift/Scale/ScaleFunction::Construct"), ("bin mapping", "Systematic::GetTransObsBins / CacheTransObsBins")],
     ["Systematic::GetResponse, Systematic::operator()"])
prop("P07", "Convolution, shape and renormalisation responses follow their kernels exactly",
     "A convolution's response sends each bin's content to the bins of the transformed observables in proportion to the kernel integrated over the destination bin given the original bin centre, and never mixes bins that differ in any other observable. A shape systematic multiplies each bin by its function at that bin's centre and a renormalisation multiplies every bin by its factor. All three hold for every position and order of the transformed observables, follow parameter changes at the next construction, refuse to be used unconfigured, and can be copied into independent ones.",
     ["inputs", "configurations"], "every binning, kernel, position and order of the transformed observables, parameter values",
     "the unit tests use one Gaussian on a single axis layout",
     ["src/systematic/Convolution.cpp", "src/systematic/Shape.cpp", "src/systematic/Renorm.cpp"],
     [("blocked response", "Convolution::Construct"), ("diagonal", "Shape::Construct, Renorm::Construct")],
     ["Systematic::GetResponse, operator()"])
prop("P08", "Systematic groups apply in the declared order to exactly their distributions",
     "Distorting distributions with a set of systematics applies, to each distribution, exactly the systematics of the global group followed by those of the groups it was registered with, in registration order, as one product of their individual responses; distributions registered with the global group alone get only the global systematics, and distributions not registered at all are left unchanged; a systematic that would act twice on one distribution is refused. The outcome depends only on the systematics' current parameter values and responses, not on how often or when they were constructed before, and the norms returned are the integrals of the distorted distributions. Names of groups, systematics and parameters are reported consistently and unknown ones are refused.",
     ["histories", "configurations"], "every assignment of systematics to groups and distributions, registration order, and construct/distort history",
     "the unit tests use two systematics and two groups in one arrangement",
     ["src/fitutil/SystematicManager.cpp"],
     [("group responses", "SystematicManager::Construct / GetTotalResponse / DistortEDs")],
     ["distorted bin contents and norms; GetTotalResponse"])
prop("P09", "Shrinking with buffers keeps exactly the non-buffer bins and their contents",
     "Applying buffers to a binned distribution removes, on each buffered axis, exactly the given number of bins at the lower and upper end, keeps the edges and contents of all other bins unchanged, and either discards what was in the buffers or, when overflow keeping is on, moves it into the nearest kept bin so that the total is preserved. Unbuffered axes are untouched, zero buffers are the identity, shrinking is linear in the contents, and buffers that would consume the whole axis or do not exist are refused.",
     ["inputs", "configurations"], "every binning, buffer size per axis, overflow mode and content",
     "the unit tests shrink one 1-D axis and one 2-D distribution",
     ["src/fitutil/BinnedEDShrinker.cpp"], [("bin map", "BinnedEDShrinker::ShrinkDist / SetBinMap")],
     ["axes and contents of the shrunk distribution"])
prop("P10", "The PDF manager's expectation is the norm-weighted sum of its distributions",
     "For any set of distributions, norms and norm-fitting statuses, the expectation at a bin or event is the sum over distributions of the current norm times that distribution's probability (its own contents, where its norm is not fitted). Only the norms whose status says so are exposed as fit parameters; setting parameters changes exactly those norms, systematics change shapes from the originals every time they are applied (never cumulatively), and a norm is changed by a systematic exactly when its status says it should be. Adding distributions in any grouping, re-adding and asking for names is consistent, copies are independent, and wrong dimensions or numbers of norms or statuses are refused.",
     ["histories", "configurations"], "every list of distributions, mixture of fitting statuses, norms, and sequence of parameter changes and applications",
     "the unit tests add two or three distributions with one status and call in one order",
     ["src/fitutil/BinnedEDManager.cpp", "src/fitutil/EDManager.cpp"],
     [("expectation", "BinnedEDManager::BinProbability / Probability"), ("norm status", "BinnedEDManager::ApplySystematics / ReassertNorms")],
     ["BinProbability, Probability, GetNormalisations, GetParameters"])
prop("P11", "The binned likelihood equals the extended Poisson formula for its inputs",
     "For any data, PDFs, normalisations, systematics, buffers, cuts and constraints, the binned negative log-likelihood is the sum over the (shrunk) bins of expected minus observed times log expected, where expected is the norm-weighted sum of the distorted, shrunk PDFs, plus the sum of the constraint penalties at the current parameter values. With Monte-Carlo statistical errors enabled each bin uses the Beeston-Barlow-lite scaled expectation and its penalty. Data given as events, as a data set or as a distribution give the same value, parameters are those of the norms and systematics, and a zero-probability bin or an incomplete setup is refused.",
     ["inputs", "configurations"], "every combination of data, PDFs, norms, systematics, buffers, cuts and constraints",
     "the unit tests evaluate one data set with one to three Gaussian PDFs and compare one number",
     ["src/teststat/BinnedNLLH.cpp"], [("sum", "BinnedNLLH::Evaluate")], ["BinnedNLLH::Evaluate"])
prop("P12", "A likelihood evaluation depends only on current settings, not on history",
     "The value of the binned negative log-likelihood after any history of parameter settings, data replacements, evaluations and re-registrations equals the value a freshly built likelihood gives with the same current configuration and parameters. Evaluating is repeatable and has no effect on the parameters reported afterwards, and evaluating at parameter points in any order gives each point the same value. A copy of a likelihood has its own normalisations: setting them on either leaves the other as it was.",
     ["histories"], "every sequence of set-parameter, set-data, evaluate and register calls",
     "the unit tests evaluate each likelihood object once",
     ["src/teststat/BinnedNLLH.cpp", "src/fitutil/BinnedEDManager.cpp", "src/systematic/Systematic.cpp"],
     [("re-distortion from the working originals", "BinnedNLLH::SetParameters / Evaluate")], ["BinnedNLLH::Evaluate"])
prop("P13", "Combined test statistics are the sum of their parts under shared parameters",
     "A statistic summed from several parts evaluates to the sum of the parts at the current parameters, exposes exactly the union of their parameters, and setting a parameter sets it in every part that has it and in no other. Built by any order or grouping of additions, with scalars or sums, the value is the same; the part statistics remain usable on their own.",
     ["inputs", "configurations"], "every collection of statistics with overlapping parameters and every way of summing them",
     "the unit test adds two or three fake statistics in one way",
     ["src/teststat/StatisticSum.cpp", "src/teststat/TestStatistic.h"], [("sum", "StatisticSum / operator+ / Sum")],
     ["Evaluate, GetParameters, GetParameterNames"])
prop("P14", "Constraint penalties match their formulas and only their own parameters",
     "The total penalty is the sum of the individual constraints, each the documented quadratic form in its own parameters: symmetric, asymmetric with the width chosen by the side of the deviation, correlated pairs, ratios, fractional differences, and the interpolated shape of a histogram or an arbitrary function of named parameters. Penalties are zero at the central values, never depend on unrelated parameters, a new constraint on the same parameter, pair or label replaces the earlier one, and constraining a parameter both individually and in a pair is refused. Correlations of magnitude one or more, missing parameters and points outside an interpolated shape are refused.",
     ["inputs"], "every width, correlation, central value and parameter point",
     "the unit tests evaluate each constraint at a handful of points",
     ["src/constraint/QuadraticConstraint.h", "src/constraint/BivariateQuadraticConstraint.h", "src/constraint/RatioConstraint.h", "src/constraint/ConstraintManager.cpp", "src/constraint/ShapeInterpConstraint.cpp"],
     [("penalty", "Evaluate of each constraint"), ("sum", "ConstraintManager::Evaluate")], ["Evaluate of constraints and of ConstraintManager"])
prop("P15", "Fit parameters set through managers reach exactly the right component",
     "Through every level of fit-component management, getting parameters after setting them returns what was set, each parameter reaches exactly the component that owns it, and no other component or parameter changes. Names, counts and values are mutually consistent after any history of registrations, renamings and clearings. Unknown or missing parameters, and renaming a parameter to a name already in use, are refused without a partial update being visible.",
     ["histories", "inputs"], "every set of components and history of registrations, renamings, sets and gets",
     "the unit tests register a few fake components and set one parameter",
     ["src/core/ParameterManager.cpp", "src/core/ComponentManager.cpp", "src/dist/SpectralFitDist.cpp"],
     [("delegation", "ComponentManager / ParameterManager")], ["Get/SetParameter(s), GetParameterNames, GetParameterCount"])
prop("P16", "Cuts select exactly the events they describe and the log accounts for each",
     "A box, bool or line cut passes an event exactly when its named observable satisfies the bound, independent of other observables; a collection passes an event exactly when all its cuts do, and logs the first failing cut. For every stream of events the log's counts per cut, remainders and percentages add up to the events seen, the counting statistic's counts equal a direct count, and copies of collections behave identically.",
     ["inputs", "histories"], "every collection of cuts and stream of events",
     "the unit tests check single cuts at a few values and one small log",
     ["src/cut/CutCollection.cpp", "src/cut/CutLog.cpp", "src/cut/BoxCut.cpp", "src/cut/BoolCut.cpp", "src/cut/LineCut.cpp", "src/count/CountingResult.cpp"],
     [("conjunction and logging", "CutCollection::PassesCuts / CutLog")], ["PassesCut(s), CutLog getters"])
prop("P17", "Events and data sets keep each observable under its own name",
     "An event's value for an observable by name or index, and any subset picked through an observable set, are exactly the data stored under those names, for any order of names. A data set returns its entries in insertion order with the declared observable names; combining data sets keeps all entries of both in order, leaves the operands as they were, and is refused when their numbers of observables differ. Copies are independent and remain valid when the original is destroyed; out-of-range and unknown accesses are refused.",
     ["inputs", "histories"], "every set of observable names, order, subset and history of insertions and copies",
     "the unit tests use a two-observable event",
     ["src/data/Event.cpp", "src/data/ObsSet.cpp", "src/data/OXSXDataSet.cpp"],
     [("naming", "Event::ToObsSet / GetDatum / ObsSet::GetIndices"), ("append", "OXSXDataSet::operator+")], ["Event, ObsSet and OXSXDataSet getters"])
prop("P18", "Event systematics and filling transform each event exactly once, in order",
     "An event-level shift, scale, reconvolution or sampling systematic changes exactly its output observable of an event, by its formula (shift and scale act on the output observable itself, reconvolution also reads the input observable), and leaves every other observable and the original event untouched; a manager applies its systematics in registration order. Filling a distribution from a data set puts each entry that passes the cuts, after the systematics, into exactly the bin of its observables with weight one, up to the requested number of entries, and reports cuts consistently.",
     ["inputs", "configurations"], "every data set, list of event systematics, cuts and entry limit",
     "the unit tests apply one systematic to one event and fill one histogram",
     ["src/eventSystematic/EventScale.cpp", "src/eventSystematic/EventShift.cpp", "src/fitutil/EventSystematicManager.cpp", "src/dist/DistFiller.cpp"],
     [("transform", "EventSystematic::operator()"), ("fill", "DistFiller::FillDist")], ["event data, bin contents"])
prop("P19", "Grid search returns the best point of the whole grid",
     "A grid search evaluates the statistic at every point of the grid defined by the minima, maxima and step sizes of all parameters, and reports a grid point whose value is the extremum (minimum, or maximum when maximising) over that grid, with that value. The result holds for any number of parameters, any sign or zero of the values, does not depend on repeated use, and inconsistent ranges are refused.",
     ["inputs", "configurations"], "every grid, number of parameters and statistic",
     "the unit tests never run the optimiser on more than a single layout",
     ["src/optimise/GridSearch.cpp"], [("enumeration", "GridSearch::Increment / Optimise")], ["FitResult::GetBestFit, GetExtremeVal, GetValid"])
prop("P20", "Matrix algebra used for responses is exact linear algebra",
     "Sparse and dense response matrices hold exactly the components set, apply to a bin vector as the ordinary matrix-vector product, multiply in the mathematical order without changing their operands, and scale by scalars. Construction by components, identity and zero agree with a plain two-dimensional array for every shape, and out-of-range components or mismatched dimensions are refused.",
     ["inputs", "histories"], "every shape, component set and sequence of operations",
     "the unit tests multiply fixed small matrices",
     ["src/core/SparseMatrix.cpp", "src/core/DenseMatrix.cpp"], [("product", "SparseMatrix::operator* / operator()")], ["GetComponent, operator(), Print"])
prop("P21", "Hamiltonian proposals integrate the motion reversibly within bounds",
     "Leapfrog integration follows the exact leapfrog recurrence of the statistic's gradient, is reversible under momentum flip, conserves energy to the order of the step, and with reflections never leaves the allowed box. The numerical gradient is the central difference of the statistic at the point asked for, the sigmoid boundary adds its exact smooth penalty without overflow, and a sampler's proposal and acceptance correction follow from the momenta drawn.",
     ["inputs"], "every start point, momentum, mass, step, number of steps and bound",
     "the unit tests take one step on one function",
     ["src/optimise/LeapFrog.hpp", "src/optimise/Gradient.h"], [("integrator", "LeapFrog::Hamiltonian")], ["positions and momenta after integration"])
prop("P22", "Configuration files read back exactly the values they declare",
     "Every section and field of a configuration file reads back as exactly the declared value in the requested type, scalars and lists alike, with comments and blank lines ignored and the elements a container already has kept; sections are listed exactly once. Missing sections and fields and text that is not a number raise the specific exceptions without effect, and no input text makes the reader crash or hang.",
     ["inputs"], "every configuration text, requested type, section and field",
     "the unit tests parse one file",
     ["src/config/ConfigLoader.cpp", "src/config/ConfigLoader.hpp", "src/config/ini.hpp"], [("parse", "INI::Parser"), ("convert", "ConfigLoader::Load")], ["ConfigLoader::Load, GetSections, Exists"])
prop("P23", "Interval calculators return consistent, correctly covering limits",
     "Bayesian upper limits, from a binned posterior or from observed and expected counts, are the inverses of the probabilities they claim to cover (exactly for a posterior, within the tolerance for counts), grow monotonically with credibility level and observed counts, and are found for every valid input in finite time. Invalid levels, tolerances and counts, and empty posteriors, are refused.",
     ["inputs"], "every confidence level, count, expectation and posterior",
     "the unit tests check a few table entries",
     ["src/interval/BayesIntervalCalc.cpp"], [("cumulative search", "BayesIntervalCalc::UpperBound / OneSidedCountingInterval")], ["returned limits"])
prop("P24", "Function objects are self-consistent: values, integrals and parameters agree",
     "Gaussians of any dimension take exactly the values of their formula, and their integral over a box is that of the formula (with tails beyond the cut-off rounded to zero or one), is additive over adjoining boxes, and reaches one. Step and square-root functions take exactly their formula values. A jump function and a function of varying parameters evaluate, integrate and sample their kernel at the difference of the two points, with the parameters that the dependences give there. Parameters read back as set by every route, parameters sharing a name are set together, and renaming moves the value to the new name. Wrong sizes, dimensions out of range, unknown names, and widths that are not positive at construction are refused without effect. Copies, clones and assignments evaluate identically and independently of the original. Samples follow the random stream shifted by the mean and scaled by the width.",
     ["inputs", "histories"], "every dimension, parameter value, point, box and parameter-call history",
     "the unit tests evaluate a one- or two-dimensional Gaussian at a few points",
     ["src/function/Gaussian.cpp", "src/function/GaussianFitter.cpp", "src/function/VaryingCDF.cpp", "src/function/JumpPDF.cpp", "src/function/Heaviside.cpp", "src/function/SquareRootScale.cpp"],
     [("density and cdf", "Gaussian::operator() / Cdf / Integral"), ("parameters by name", "GaussianFitter"), ("kernels", "JumpPDF / VaryingCDF")], ["operator(), Integral, Sample, GetParameter(s)"])
prop("P25", "Generated data sets draw the right entries in the right numbers",
     "Expected and fluctuated draws from data sets take exactly the number of entries they report, each an entry of the source set, and return those of them that pass the cuts; without bootstrap no entry is drawn twice until a reset, sequential draws come in the order of the source, the remaining entries are exactly those not drawn, and asking for more than are left is refused. Every entry is equally likely to be drawn, the last one included. Equal seeds give equal draws and the source sets are left as they were. Generated distributions keep the axes of their sources, hold whole numbers of events, the rounded rate or a Poisson number per source, in proportion to the source's contents and none in bins that are empty in every source. Missing rates, sets or settings are refused.",
     ["inputs", "histories", "schedules"], "every source set, rate, bootstrap and sequential setting, history of draws and random stream",
     "the classes need ROOT and are not even compiled by the test suite",
     ["src/data/DataSetGenerator.cpp", "src/dist/BinnedEDGenerator.cpp", "src/rand/Rand.cpp"], [("draws", "DataSetGenerator"), ("binned draws", "BinnedEDGenerator::RandomBin")], ["entries of the generated data sets, bins of the generated distributions"])
prop("P26", "Saved distributions and data sets load back identical",
     "A histogram or data set written to an HDF5 file and read back has the same axes, names, latex names, edges, contents, entries and order, for every binning, content, length of names and number of entries, none included; a data set saved as a ROOT tree reads back the same up to single precision by every reader, in any order. Lazily loaded sets give the same entries whatever the order in which sets are accessed, closed, copied, assigned and dropped. Files that are missing, cut short or of the wrong kind, unknown extensions, and names that the format cannot hold are refused with an exception.",
     ["inputs", "histories"], "every axis collection, content, data set and history of accesses",
     "the readers and writers need ROOT headers and are not even compiled by the test suite",
     ["src/data/IO.cpp", "src/data/LazyOXSXDataSet.cpp", "src/data/ROOTNtuple.cpp", "src/data/ROOTTree.cpp"], [("HDF5 layout", "IO::SaveHistogram / LoadHistogram / SaveDataSet / LoadDataSet"), ("one set in memory at a time", "LazyOXSXDataSet::Load")], ["loaded objects"])
prop("P27", "Result objects copy completely and stay independent",
     "A fit result returns exactly the best fit, statistic space and validity it was given; copies and assignments in any direction, including to itself and from or to empty ones, carry everything over, share nothing, and outlive the original. Printing and saving list every parameter of the result.",
     ["histories"], "every history of setting, copying, assigning and destroying results",
     "the unit tests never copy a result",
     ["src/optimise/FitResult.cpp"], [("deep copy", "FitResult copy constructor / operator=")], ["FitResult getters, AsString"])
prop("P28", "Container, combination and histogram-collection helpers are exact",
     "The helpers that build maps from keys and values, select values by key, compare key sets, enumerate combinations and pairs, and build, fill and project collections of histograms return exactly the mathematical result for every input. Inputs of inconsistent size or with missing keys are refused.",
     ["inputs"], "every container content and size", "most helpers have no test",
     ["src/core/ContainerTools.hpp", "src/core/Combinations.cpp", "src/histogram/HistTools.cpp"], [("helpers", "ContainerTools, Combinations, HistTools")], ["returned containers"])

prop("P29", "Markov chains follow the Metropolis rule and keep exact accounts",
     "A chain starts where told or inside its box, moves only to proposals inside the box, never evaluates outside of it, always accepts a better point and accepts a worse one with the probability given by the ratio of the statistics and the sampler's correction. The best fit is the best point it was at, including the first and the last. The acceptance rate, the histogram or projections of the steps kept after burn-in and thinning, and the saved chain describe exactly the steps taken. Metropolis proposals vary exactly the released parameters by Gaussians of the widths set. Running means, variances and autocorrelations equal their definitions. Limits or starting points for other parameters than the statistic's are refused.",
     ["inputs", "histories", "schedules"], "every statistic, box, start, sequence of proposals, burn-in, thinning and random stream",
     "the classes need ROOT and are not even compiled by the test suite",
     ["src/optimise/MCMC.cpp", "src/optimise/MCMCSamples.cpp", "src/optimise/MetropolisSampler.cpp", "src/optimise/AutoCorrelationCalc.cpp"],
     [("acceptance", "MCMC::StepAccepted"), ("accounts", "MCMCSamples::Fill")], ["fit result, samples, proposals"])
prop("P30", "Conversions to and from ROOT histograms keep every bin",
     "Histograms and binned distributions of one to three dimensions converted to ROOT histograms have the same edges, axis titles and contents (divided by the bin width where asked), and converting back gives the same bins and contents, also for bins of different widths. Binning a density gives each bin its integral. Wrong dimensions are refused.",
     ["inputs"], "every axis layout and content",
     "the conversions need ROOT and are not even compiled by the test suite",
     ["src/dist/DistTools.cpp"], [("bin by bin copy", "DistTools::ToHist / ToTH1D / ToTH2D / ToTH3D")], ["converted histograms"])
prop("P31", "The Minuit optimiser passes its settings on exactly and reports by name",
     "Every setting of the optimiser (method, strategy, calls, tolerance, contour edge, initial values and errors, limits, fixed parameters) reaches the minimiser as set, for the parameter it was set for and in every fit, and the best fit, extreme value (in the statistic's own sign, also when maximising), validity and covariance are the minimiser's, under the right names. Parameters that are fixed keep their initial values, and fits stay within the limits. Copies carry the settings and the result over and fit on their own. Settings for other parameters than the statistic's, empty ranges and unknown methods are refused.",
     ["inputs", "histories"], "every statistic, setting and history of fits",
     "the class needs Minuit2 and is not even compiled by the test suite",
     ["src/optimise/Minuit.cpp", "src/optimise/MinuitFCN.cpp"], [("ordering by name", "MinuitFCN::operator()"), ("set-up", "Minuit::Initialise")], ["fit result, what the minimiser is handed"])
prop("P32", "The ntuple scripts write exactly the branches and entries asked for",
     "Pruning a tree (util/prune_flat_tree) writes, under the asked or default tree and file name, exactly the asked branches in the asked order, with the single-precision values of the first -nevents entries (all of them if the limit is negative or not given, none if it is zero), entry by entry. The effective-radius script (util/calc_eff_rad) writes for every entry all other branches, and the kept coordinates, under their own names, together with ((x^2+y^2+z^2)^(1/2)/6005)^3. A branch or tree that isn't there makes both write no tree, and the input stays as it was. The script for example data (util/make_simple_data) writes the documented numbers of normally distributed energies and shuffles the data set. All scripts run under Python 3.",
     ["inputs", "configurations"], "every input tree, choice and order of branches, and command line",
     "the scripts need ROOT and no test runs them",
     ["util/prune_flat_tree", "util/calc_eff_rad", "util/make_simple_data"],
     [("entry loop", "prune_flat_tree make_ntup"), ("radius", "calc_eff_rad eff_r / to_eff_r"), ("samples", "make_simple_data main")],
     ["trees in the output files"],
     technique="property-based testing with shrinking (Hypothesis) against a reference model: the real scripts are run on generated trees and command lines with an in-memory stand-in for ROOT",
     note="Random structured search over command lines and trees against the reference in harness/P32.py; not exhaustive. Trusts the stand-in harness/rootstub.py to behave as PyROOT for the calls the scripts make; calls it doesn't know are reported as not decided.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"],
                                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --selfcheck", "checks": [], "not_applicable": [],
         "notes": "No hooks are needed in /repo: every property is observed through the public API. Each check builds /repo's current sources with AddressSanitizer and UndefinedBehaviorSanitizer."}
    for p in P:
        if p["claimed"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                                "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
                                "technique": p["technique"] or "property-based testing with shrinking against a reference model, plus coverage-guided fuzzing of the same generators in the thorough tier",
                                "level": "exploration",
                                "level_note": p["note"] or "Random structured search (with sanitizers) over generated cases against an independent reference model in harness/%s.cpp; not exhaustive. Trusts the reference model, the compiler and the sanitizers." % p["id"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]


main()
