"""Writes properties.jsonl. Kept as a script so that the statements stay readable."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


p("C01", "Parameter values survive any history of writes, reads and draws",
  "After any sequence of writes (one name, a list, a dictionary), reads, prior draws, initial-guess draws and re-initialisations, the parameter manager holds exactly the configured parameters, every read returns the latest value of each requested name in the requested order, and a rejected write or read raises and changes nothing. "
  "Draws put every fitted parameter inside its allowed range and every fixed one at its configured value, follow the declared location and width, are reproducible from the seed, and the list of fitted parameters is always the sorted non-fixed ones with the fit vector in the same order, also when the configuration was edited and drawn from afresh. "
  "The configuration handed in by the user is never altered.",
  ["histories", "configurations"],
  "every operation sequence up to a depth over a small parameter table containing every prior type; every rejected form of argument; every seed of a finite set for draws",
  "Tests call each method once on one parameter file; interleavings of rejected writes, draws and reads, and boundary ranges, are never reached.",
  ["appletree/parameter.py"],
  [("parameter manager", "appletree/parameter.py: Parameter")],
  [("parameter table", "current value of each parameter", "appletree/parameter.py: Parameter._parameter_dict")],
  ["get_parameter", "parameter_fit_array", "get_all_parameter"])

p("C02", "Log prior is the declared prior inside the range and -inf exactly outside it",
  "For every assignment of values, the log prior is minus infinity exactly when some fitted parameter is outside its closed allowed range, and otherwise equals, up to a constant, the sum of the Gaussian and two-half-Gaussian log densities declared for the fitted parameters; flat and free priors add nothing and fixed parameters never matter. "
  "The two errors of a two-half-Gaussian prior are the distances from the mode to its 16th and 84th percentiles, and drawing from that prior puts the matching share of probability on each side of the mode.",
  ["inputs", "configurations"],
  "every combination of prior types and every tuple of values from a lattice with points below, on, inside, on and above the range limits and the mode",
  "Tests evaluate the prior only implicitly at one random point; boundary values, mixed prior types and asymmetric errors are never enumerated.",
  ["appletree/parameter.py", "appletree/utils.py", "appletree/randgen.py"],
  [("log prior", "appletree/parameter.py: Parameter.log_prior"), ("error conversion", "appletree/utils.py: errors_to_two_half_norm_sigmas"), ("two-half-normal", "appletree/randgen.py: TwoHalfNorm")])

p("C03", "Log posterior = log prior + all log likelihoods, with bypass and averaging",
  "For every parameter set, the log posterior is the log prior plus the sum over all likelihoods of the log likelihood evaluated at exactly that parameter set; if the prior is not finite the result is minus infinity together with the prior and nothing is simulated. "
  "Within one evaluation each likelihood consumes the random key left by the previous one, the requested batch size reaches every likelihood, and with repetition the result is the mean over that many independently seeded evaluations, a single minus infinity making the mean minus infinity.",
  ["inputs", "histories", "configurations"],
  "every combination of number of likelihoods, likelihood outcomes (finite, -inf), parameter vectors inside/outside the prior range, repetition counts, and every sequence of such calls up to a depth",
  "Tests evaluate the posterior once with one seed; they cannot tell a dropped likelihood, a reused key or a stale parameter set from Monte Carlo noise.",
  ["appletree/context.py"],
  [("posterior", "appletree/context.py: Context.log_posterior")],
  [("current parameters", "parameter set last evaluated", "appletree/context.py: Context.par_manager")],
  ["Context.log_posterior"])

p("C04", "The deduced workflow computes the requested data for every plugin graph",
  "For every acyclic set of registered plugins and every list of requested data, the generated simulation runs each needed plugin exactly once, after all providers of its inputs, none that is not needed, and returns the requested data in the requested order with the efficiency last, each computed by the plugin registered last for it. "
  "The needed parameters are exactly the rate and the parameters of the plugins that run (including those demanded by their configurations), a data name nobody provides raises an error, and deducing again replaces the earlier workflow completely.",
  ["programs", "configurations", "histories"],
  "all plugin graphs up to a size (multi-output plugins, overlapping providers, diamonds, chains), all registration orders, all request lists, and all sequences of deductions up to a depth",
  "Tests deduce five fixed components; ordering, overriding and missing-provider behaviour of other graphs is never executed.",
  ["appletree/component.py", "appletree/plugin.py"],
  [("dependency deduction", "appletree/component.py: ComponentSim.dependencies_deduce, dependencies_simplify"), ("code generation", "appletree/component.py: ComponentSim.flush_source_code, deduce, compile")],
  [("registry", "plugin class per data name", "appletree/component.py: ComponentSim._plugin_class_registry"), ("worksheet", "execution order", "appletree/component.py: ComponentSim.worksheet")],
  ["ComponentSim.simulate", "ComponentSim.needed_parameters"])

p("C05", "No random key is ever used twice, and equal keys give equal results",
  "In every sampler, every built-in plugin, every built-in component, and every likelihood and repeated simulation, each random key is consumed at most once, a key that has been consumed is never handed on, and the returned key is one no draw has used. "
  "Running again with the same key, batch size and parameters returns the same values, and drawing from a returned key returns different ones.",
  ["programs", "inputs"],
  "every sampler with every way of giving its shape, every built-in plugin class, every built-in component, and every nesting of likelihood/repetition; the key flow of each is traced completely",
  "A reused key leaves every output plausible; tests compare means of single distributions and never look at the key flow.",
  ["appletree/randgen.py", "appletree/plugins", "appletree/component.py", "appletree/likelihood.py"],
  [("key threading", "appletree/randgen.py: every sampler; appletree/component.py: ComponentSim.flush_source_code, multiple_simulations; appletree/likelihood.py: Likelihood._simulate_model_hist")])

p("C06", "Every event lands in exactly the bin that contains it",
  "For every sample, bin edges and weights, each event strictly inside the binning is counted with its weight in exactly the one bin whose interval contains it (an event on an inner edge in exactly one of the two neighbours), events outside the binning or not a number are counted nowhere, and empty bins are zero. "
  "This holds in one dimension, in two dimensions with a different second-axis binning in each slice of the first axis, and on rectangular grids, and the data histogram and the model histogram of a likelihood use the same convention.",
  ["inputs"],
  "every multiset of events up to a size from a lattice with points below, on, between and above all edges (and infinities, NaN), for all small binnings including uneven and sliced ones, and all weights of a small alphabet",
  "Tests only build histograms of one data file and never compare a single bin with a hand count.",
  ["appletree/hist.py", "appletree/component.py", "appletree/likelihood.py"],
  [("histograms", "appletree/hist.py: make_hist_mesh_grid, make_hist_irreg_bin_1d, make_hist_irreg_bin_2d"), ("binning dispatch", "appletree/component.py: Component.implement_binning; appletree/likelihood.py: Likelihood._make_data_hist")])

p("C07", "Expected counts are normalised to the rate, with efficiency as weight",
  "For every simulated or fixed sample, binning, efficiency and rate, the expected counts are the efficiency-weighted histogram times one factor: the rate over the histogram sum when normalising to the shape, so the counts add up to the rate, and the rate over the number of simulated events when normalising to the simulation, so they add up to the rate times the accepted fraction. "
  "The weighted events of the same sample carry that same factor, contain only events inside the binned region with their observables unchanged and aligned, and reproduce the expected counts when binned; the optional floor (used unless declared otherwise) raises a bin to the mean efficiency and changes nothing else; a component told to ignore efficiency weights every event by one, until it is deduced otherwise, and a rate that is not given raises.",
  ["inputs", "configurations", "histories"],
  "every sample up to a size from a lattice, each efficiency vector, binning type, dimension, normalisation, floor option and rate of a finite alphabet, for simulated and file-based components",
  "Tests only check that these calls return; the numerical identities between events, histogram and rate are never evaluated.",
  ["appletree/component.py"],
  [("normalisation", "appletree/component.py: Component.get_normalization, implement_binning"), ("weighted events", "appletree/component.py: ComponentSim.simulate_hist, simulate_weighted_data; ComponentFixed")])

p("C08", "The binned log likelihood is the Poisson one, and -inf when it must be",
  "For every data set and every set of components, the model histogram is the sum of the expected counts of all components (each once, at the parameters after renaming aliases), and the log likelihood is the Poisson sum over bins of n log(mu) - mu; it is minus infinity whenever some bin expects zero, a negative, an infinite or an undefined number, and never NaN or plus infinity. "
  "The number of accepted events is the sum of that model histogram (in a context, of those of all its binned likelihoods), the weighted simulation is the concatenation of the weighted events of all components, and none of these calls changes the parameters passed in or the data.",
  ["inputs", "configurations"],
  "every combination of up to three components (simulated and fixed) with per-bin expectations from an alphabet including zero, negative, tiny, huge, infinite and NaN, every small data histogram, binning type and dimension",
  "Tests only check that a likelihood value is produced for one data set; wrong sums, dropped components and unusual bins are invisible.",
  ["appletree/likelihood.py"],
  [("model histogram and Poisson sum", "appletree/likelihood.py: Likelihood._simulate_model_hist, get_log_likelihood, get_num_events_accepted, simulate_weighted_data")])

p("C09", "Every interpolator reproduces nodes, stays in range and uses its own cell",
  "For every map and query point, interpolation returns the map value exactly at a node, lies between the smallest and largest value of the nodes it uses (the surrounding cell, or the neighbours for nearest-neighbour and inverse-distance methods), and beyond an edge of the map returns the edge value (inverse-distance maps stay within the values of the nodes nearest that edge). "
  "Nearest neighbour returns the value of the closest node on each axis, linear interpolation is exact for functions linear in each axis, inverse-distance interpolation is the normalised distance-weighted mean, logarithmic axes behave as the same map on the logarithm of the coordinate, and each point of a batch is treated independently.",
  ["inputs", "configurations"],
  "every method and dimension, every map over small grids from a value alphabet, and every query point of a lattice with nodes, midpoints, off-centre points and points beyond each edge, on linear and logarithmic axes",
  "Tests query one or two points per method on one smooth function; nodes, edges, outside points and asymmetric grids are not enumerated.",
  ["appletree/interpolation.py", "appletree/config.py"],
  [("interpolators", "appletree/interpolation.py"), ("axis preprocessing and dispatch", "appletree/config.py: Map.preprocess, map_point, map_regbin, _get_regbin_interpolator")])

p("C10", "A map is built as declared in its file, or rejected",
  "For every map file whose values have one entry per node, building either yields a map that evaluates to the declared values at the declared coordinates with the declared method and axis types, or raises: unknown coordinate types or methods, axis lists of the wrong length, non-positive coordinates on logarithmic axes and logarithmic probability axes are rejected. "
  "A map declared as a probability density is turned into the inverse of its cumulative distribution: coordinates non-decreasing from 0 to exactly 1, each value the position below which that share of the density lies, so that feeding uniform numbers reproduces the density.",
  ["inputs", "configurations"],
  "every combination of coordinate type, axis list, dimension, method, coordinate names and coordinate lists (including zero, negative and unsorted) of finite alphabets, and every small density table",
  "Tests build the packaged files and one mixed map; the rejection rules and the density conversion are hardly touched.",
  ["appletree/config.py", "appletree/utils.py"],
  [("map construction", "appletree/config.py: Map.build, build_point, build_regbin, _validate_log_coords, pdf_to_cdf"), ("integration", "appletree/utils.py: integrate_midpoint, cumulative_integrate_midpoint")])

p("C11", "Configuration values resolve to the latest setting, per likelihood",
  "For every history of setting options, building plugins for several likelihoods and clearing, a plugin sees the user's setting if there is one and its default otherwise, and a setting given as a dictionary over likelihoods gives each likelihood its own entry and raises for a likelihood without entry. "
  "A plugin keeps the values it was built with: building it for another likelihood or changing the options afterwards does not alter it, and a plugin built after a change sees the change; options taken by several plugins agree, file names are resolved through the file search, and an option without default and setting raises.",
  ["histories", "configurations"],
  "every sequence up to a depth of set-scalar, set-per-likelihood, build for likelihood A/B/none, clear, over constant, constant-set and map options, compared with a reference dictionary model",
  "Tests set one option once; leakage between likelihoods or instances needs a particular order of builds and settings.",
  ["appletree/config.py", "appletree/share.py", "appletree/plugin.py"],
  [("resolution", "appletree/config.py: Config._resolve_cached_config, Constant.build, ConstantSet.build, Map.build"), ("isolation", "appletree/plugin.py: Plugin.__init__"), ("setting", "appletree/share.py: set_global_config")],
  [("option cache", "current options", "appletree/share.py: _cached_configs")])

p("C12", "Maps with uncertainty shift by the right band and name their parameter",
  "For every triple of maps and every value of the scaling parameter, a map with uncertainty equals the median plus the parameter times the distance to the upper map for positive values and to the lower map for the others, evaluated point by point. "
  "The parameter is the fourth entry of the setting if given, the default name for a three-entry setting, and none for a single file, in which case no parameter is required; with settings per likelihood each likelihood uses its own files and its own parameter, that parameter is among the needed parameters of exactly the components that use the map, a setting changed later is used by plugins built afterwards, and malformed settings, or a scaling parameter without a value, raise.",
  ["inputs", "configurations", "histories"],
  "every form of setting (string, three, four, five entries, per likelihood, default only), likelihood order, parameter value and query point of finite alphabets",
  "Tests use the packaged identical triples with one sign of the parameter; wrong bands, names or likelihood mix-ups give the same numbers there.",
  ["appletree/config.py", "appletree/component.py"],
  [("map with uncertainty", "appletree/config.py: SigmaMap"), ("needed parameters", "appletree/component.py: ComponentSim.dependencies_simplify")])

p("C13", "Lineage is reproducible, complete and specific to each object",
  "For every plugin, component, likelihood and context, the lineage hash is the same whenever the same object is built again from the same inputs, in whatever order other objects were built in between, and can be dumped to JSON. "
  "It changes whenever something that affects the result changes: the content of a used map or data file, an option value, a method, the registered plugins, the requested data, the binning, the normalisation, the histogram floor or the rate; and it does not change when an unrelated option, likelihood or component does, nor with the directory a file is found in (unless full paths are asked for).",
  ["configurations", "histories"],
  "every pair of configurations that differ in one listed ingredient, for each entity level, and every build order of a small set of likelihoods",
  "Tests only compute hashes and never compare two of them.",
  ["appletree/plugin.py", "appletree/config.py", "appletree/component.py", "appletree/likelihood.py", "appletree/context.py", "appletree/utils.py"],
  [("lineage", "lineage/lineage_hash of Plugin, Config subclasses, Component*, Likelihood*, Context"), ("dump", "appletree/utils.py: dump_lineage, calculate_sha256")])

p("C14", "A file name resolves by the documented order of places, or raises",
  "For every combination of places in which a file name exists, the file is taken from the first of: the path as given, the configured base directory if it is absolute, the package's own folders (maps, data, parameters, instructions, in this order), the optional auxiliary package, the optional remote store; if it is nowhere an error is raised. "
  "Tables and JSON files are loaded through the same search, tables only from the supported formats, and options naming files are resolved by it as well. Places and contents count as they are when asked: files added, removed or rewritten between two questions change the answer.",
  ["configurations", "fault_sequences"],
  "all subsets of places containing the file, all forms of base directory, with and without the optional sources, which may succeed or fail",
  "Tests only load packaged files.",
  ["appletree/utils.py", "appletree/share.py"],
  [("file search", "appletree/utils.py: get_file_path, _get_abspath, load_data, load_json"), ("options", "appletree/share.py: set_global_config")])

p("C15", "A fit keeps every finished step through continuation and interruption",
  "For every history of fitting, continuing (own or other chain, with or without a file), and interruptions at any likelihood evaluation, the stored chain holds exactly the finished steps in order with the log posterior that was computed for them, a fresh fit discards the old chain, and continuing starts from the last stored state and appends to the file (a chain kept in memory only is replaced by its continuation). "
  "An interruption loses at most the unfinished step and leaves a file from which the fit can be continued; every evaluated point has the right number of parameters in the order of the sorted fitted names, and the walkers of a fresh fit start at the initial guess, within its spread and inside the allowed ranges. The batch size, number of repetitions and moves asked for are those used, in a fit as in a continuation.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of fit/continue operations up to a depth, with and without file, and every interruption point (each posterior evaluation of the run, and each metadata write)",
  "Tests fit a few steps once and never interrupt or check what is in the file.",
  ["appletree/context.py"],
  [("fitting", "appletree/context.py: Context.fitting, continue_fitting, pre_fitting, _set_backend, _dump_meta")],
  [("backend", "chain file", "HDF5 file written by emcee")],
  ["sampler chain", "backend file"])

p("C16", "A restored context is the context that ran, and posterior summaries are current",
  "A context restored from its file evaluates the same posterior: it has the same likelihoods, the options of its instructions, the same parameters, priors and ranges (also when they were given by hand or changed before the fit), the batch size and walkers of the last run, and the chain, and it uses the file it was restored from even if that was renamed. "
  "Whenever they are asked for, after any history of fits, continuations and restores, the best, median and random posterior parameters come from the chain as it is then: the best is the stored sample with the highest log posterior, the median is taken per parameter, the random one may be any stored sample and nothing else; fixed parameters are included, an unknown kind raises, and the metadata in the file and the dumped parameters agree with them.",
  ["histories", "configurations", "inputs"],
  "every context configuration of a finite alphabet (options with true/false/null, copied parameters, aliases, manual priors, fixed parameters) and every sequence of fit, continue, summarise, restore up to a depth",
  "Tests restore one context once and only check that it works.",
  ["appletree/context.py"],
  [("restore", "appletree/context.py: Context.from_backend, _dump_meta"), ("summaries", "appletree/context.py: Context.get_post_parameters, dump_post_parameters, get_template")])

p("C17", "Instructions wire every parameter to the right likelihood and component",
  "For every instruction set, each likelihood gets the components, binning, aliases and options declared for it, each component its own rate, each copied parameter the configuration of its source (the source itself kept only if it is still needed as a rate), and each alias reaches only the likelihood that declares it. "
  "Changing one parameter changes exactly the likelihoods that use it; a context whose parameters include one that nothing needs is refused before fitting, as are duplicate likelihood or component names and unknown components, and the instructions passed in are not altered.",
  ["configurations", "programs"],
  "every instruction set of a finite grammar: one to three likelihoods, one or two components each, shared or separate rates, copies, aliases and per-likelihood options",
  "Tests use three packaged instruction files; cross-talk between likelihoods needs other combinations.",
  ["appletree/context.py", "appletree/likelihood.py"],
  [("wiring", "appletree/context.py: Context.__init__, update_parameter_config, register_all_likelihood, register_component, _sanity_check"), ("aliases", "appletree/likelihood.py: need_replacing_alias, Likelihood.replace_alias, register_component")])

p("C18", "Registering extensions never silently replaces something",
  "For every sequence of registering modules or single classes of plugins and components, a name that is already taken raises and leaves the registered object in place unless replacement is forced, base classes and unrelated objects are skipped, and every other plugin or component of the module becomes available under its own name in exactly the namespace asked for. "
  "Registering plugins to a component makes the latest provider of each data name the one in use, and two plugins that disagree on the default of a shared option are refused.",
  ["histories", "programs"],
  "every sequence up to a depth of registrations over modules with fresh, duplicate, base and unrelated members and colliding module names, forced and not",
  "Tests register one extension module once.",
  ["appletree/utils.py", "appletree/plugin.py", "appletree/component.py"],
  [("extensions", "appletree/utils.py: add_extensions, _add_extension"), ("component registration", "appletree/component.py: ComponentSim.register, register_all")])

p("C19", "Likelihood binning keeps all selected data and rejects malformed bins",
  "For every data set and binning setting, the data used are exactly the events strictly inside the clip range with columns in the order of the observables, bin edges do not decrease and cover the clip range (or are exactly the edges given), and the histogram sums to the number of selected events inside the edges. "
  "Equal-probability bins hold equal numbers of distinct events up to rounding, in the first axis and within each slice, for integer observables with edges half-way between integers; settings with wrong lengths, dimensions, types or uneven slices raise, and every component receives the same bins and type as the data.",
  ["inputs", "configurations"],
  "every small data set over a lattice including values on the clip limits, every binning type, number of bins, dimension and clip range of finite alphabets, and every malformed form",
  "Tests use three data files with one binning each and one malformed case.",
  ["appletree/likelihood.py", "appletree/utils.py"],
  [("binning", "appletree/likelihood.py: Likelihood.__init__, set_binning, _resolve_bin_edges, _validate_irreg_bins_2d"), ("equal probability", "appletree/utils.py: get_equiprob_bins_1d, get_equiprob_bins_2d")])

p("C20", "Repeated simulation is the concatenation of single ones, efficiency applied",
  "For every component, batch size, number of repetitions and key, repeated simulation returns exactly the events of the successive single simulations, each started from the key the previous one returned, in order and with all columns aligned, and the final key of the last. "
  "Asking to apply efficiency removes exactly the events with zero efficiency and nothing else, raises when the component was set to ignore efficiency, zero repetitions raise, and recompiling between repetitions gives the same events with the options then in force.",
  ["inputs", "histories", "configurations"],
  "every efficiency pattern and observable assignment up to a batch size, all repetition counts up to a bound, with and without efficiency, recompilation and bootstrap input",
  "Tests call it once and do not inspect the result.",
  ["appletree/component.py"],
  [("repetition", "appletree/component.py: Component.multiple_simulations, multiple_simulations_compile")])

p("C21", "Built-in physics conserves quanta and keeps probabilities and counts in bounds",
  "For every built-in plugin and every point of its physical domain (positive parameters of scale, extraction probability at most one, nuclear-recoil yields for which the exciton number is not negative), photons and electrons of an electronic recoil add up to the quanta created, secondary counts are whole numbers between zero and their parent count, detected photons never exceed emitted ones, drifted electrons never exceed produced ones, probabilities and efficiencies lie in [0, 1], positions lie in the configured cylinder, yields and variances are not negative, and nothing is NaN. "
  "The total efficiency is the product of its factors, corrected signals are the raw ones divided by their corrections, zero energy or zero parents give zero secondaries, and each plugin returns one array per declared output, aligned with its inputs. Drawn counts have the mean and spread declared for them (in particular the S2 of a drifted electron is on average g2 times the light collection at its position, whatever the local gain), and light, charge, ions and excitons account for all quanta.",
  ["inputs", "configurations"],
  "every built-in plugin class on the full product of a lattice of inputs (zero, tiny, typical, large counts; energies; positions incl. centre and wall) and parameter corners, for a finite set of keys",
  "Tests run whole components at one parameter point and check nothing about the intermediate quantities.",
  ["appletree/plugins"],
  [("plugins", "appletree/plugins/*.py")])

p("C22", "Random samplers return the declared distribution, shape and type",
  "For every sampler, shape specification and parameter, the output has the requested or broadcast shape and the declared integer or float type, stays in the support of its distribution, reduces to the exact value in degenerate cases (zero width, probability zero or one, zero trials, zero mean), and is a location-scale image of the same standard draw where the family is one. "
  "Each sampler draws from the distribution it is named after: for binomials the exact sum of Bernoulli trials below the documented threshold and a value within range above it, for two-half-normals both halves with probability proportional to their widths, for clipped normals the clipped value, and a literature band is evaluated with widths interpolated at the point.",
  ["inputs", "configurations"],
  "every sampler over the product of parameter corners and shape forms, and every outcome of a discretised source of randomness (all quantile cells) pushed through the sampler, whose image measure is compared with the exact distribution",
  "The tests do not test the samplers at all apart from running them.",
  ["appletree/randgen.py"],
  [("samplers", "appletree/randgen.py")])

p("C23", "The literature likelihood weights each event's log density by its efficiency",
  "For every set of measured points and every prediction, the literature log likelihood is the sum over events of efficiency times the log density of the predicted yield under the declared Gaussian, two-half-Gaussian or interpolated band; events of zero efficiency contribute nothing whatever their density, an undefined sum gives minus infinity, and a prediction outside the band's range with non-zero efficiency gives minus infinity. "
  "It always simulates exactly one event set whatever batch size is asked for, holds exactly one component, two observables and a supported type, and renames aliases before simulating.",
  ["inputs", "configurations"],
  "every combination of type, number of points, predicted yields below/at/above the mode, inside/at the edge/outside the band, efficiencies 0, fraction and 1, and every malformed configuration",
  "Tests evaluate one literature context at random parameters.",
  ["appletree/likelihood.py", "appletree/randgen.py"],
  [("literature likelihood", "appletree/likelihood.py: LikelihoodLit"), ("densities", "appletree/randgen.py: TwoHalfNorm, BandTwoHalfNorm")])

p("C24", "Fit plots and map plots show the stored chain and the maps actually used",
  "For every chain file, the plotter uses exactly the stored samples after the requested burn-in and thinning, pairs each parameter with its own column, and reports as best fit the stored sample with the highest posterior. "
  "For every context, the map plots contain each map file actually used by some simulated component once (for every likelihood and not those of unused plugins), averaging an axis uses exactly the nodes in the requested range, figures are saved as they are shown, under distinct names that name the map, options changed after the context was built do not change the maps shown, and plotting leaves options and parameters unchanged.",
  ["inputs", "configurations"],
  "every small chain (walkers, steps, thinning, burn-in), every map dimension, axis subset and range on a lattice, and every assignment of map files to two likelihoods",
  "Tests only check the number of figures for one context and a few collapses.",
  ["appletree/plot.py"],
  [("chain plots", "appletree/plot.py: Plotter"), ("map plots", "appletree/plot.py: plot_maps, _collect_maps, _collapse_regbin_map, _regbin_edges_centers")])

p("C25", "Profiling reports every executed plugin once and with its own data",
  "For every component or context, profiling yields one record per plugin that the simulation runs, in execution order, timing that plugin on the data its dependencies produced and at the renamed parameters, and totals and summaries equal the sums over those records. "
  "Fixed components are skipped, a component without workflow raises, and profiling neither changes the component, its parameters nor what it simulates afterwards.",
  ["programs", "configurations"],
  "every plugin graph up to a size (chains, diamonds, multi-output, overridden outputs) and every context of a small grammar",
  "Tests profile two packaged components and check the keys of the records.",
  ["appletree/profiler.py"],
  [("profiler", "appletree/profiler.py")])

p("C26", "Components never overwrite each other's compiled simulations",
  "For every sequence of creating, deducing, compiling and running components over shared and separate likelihood names, component names and function names, each component keeps running its own plugins built for its own likelihood, whatever was compiled before or after it. "
  "A deduction that would overwrite the function or plugin instances another component of the same likelihood still uses raises instead and leaves that one working; after clearing the cache the names are free again, and a likelihood can hold any number of differently named components.",
  ["histories"],
  "every sequence up to a depth of deduce/compile/run/clear over components that share or differ in likelihood name, component name, function name and plugins",
  "Tests clear the cache by hand before each component.",
  ["appletree/component.py", "appletree/share.py", "appletree/likelihood.py"],
  [("function cache", "appletree/share.py: StaticValueDict, clear_cache; appletree/component.py: ComponentSim.code, compile")],
  [("compiled functions", "namespace per likelihood", "appletree/share.py: _cached_functions")])

p("C27", "Unused options are reported, used ones never",
  "For every set of options and every set of objects built, the check for unused options warns with exactly the options that were set but taken by nothing built since the options were last cleared, and stays silent if there are none; building, reading or showing options uses only the ones concerned, and clearing resets everything. "
  "Showing the options of a component lists each option of each plugin needed for the requested data once (an option two plugins share is listed for both), with its default, the value in force for that likelihood and what it applies to.",
  ["histories", "configurations"],
  "every subset of a small option alphabet set before or after every subset of plugins is built, over sequences up to a depth including clears",
  "Tests call the check at most once, without looking at the warning.",
  ["appletree/share.py", "appletree/utils.py", "appletree/component.py"],
  [("usage record", "appletree/share.py: RecordingDict; appletree/utils.py: check_unused_configs"), ("listing", "appletree/component.py: ComponentSim.show_config, set_config")])

p("C28", "The GPU memory limit set is the fraction asked for",
  "For every fraction in (0, 1] the memory limit handed to the numerical backend is a number within one percent point of it and never above one; larger values are limited just below one and non-positive ones are refused without changing the setting.",
  ["inputs"],
  "every fraction on a fine grid over the admissible range, its boundaries and outside values",
  "No test calls it.",
  ["appletree/utils.py"],
  [("memory limit", "appletree/utils.py: set_gpu_memory_usage")])

p("C29", "Malformed definitions are refused, well-formed ones are used as written",
  "A plugin runs only if its declaration and its simulate method agree: no inputs or outputs declared, first arguments other than key and parameters, inputs missing, misnamed or in another order, or another number of results than outputs, raise at the latest when it is simulated, and never give a result; every consistent declaration is accepted, gets its inputs as declared and its results are known by the declared output names. "
  "Options of a plugin class are its own and its ancestors', with the declared defaults; declaring one twice along the ancestry, something that is not an option, or a dictionary as default raises, and neither ancestors nor siblings change. "
  "A new component made from an existing one has its class and, if passed, its binning, under its own name and likelihood name, and shares nothing with it that registering, deducing or compiling changes afterwards. Unknown binning or normalisation types, dimensions, data names, files or columns raise.",
  ["configurations", "histories"],
  "every declaration of up to three inputs against every argument list of a finite alphabet, every number and order of outputs, every assignment of options along a hierarchy of four classes, all histories of registering and deducing a component and its copy up to a depth",
  "Tests use the built-in plugins, which are all consistent.",
  ["appletree/plugin.py", "appletree/config.py", "appletree/component.py"],
  [("declaration check", "appletree/plugin.py: Plugin.__init__, sanity_check"), ("options", "appletree/config.py: takes_config"), ("copies", "appletree/component.py: ComponentSim.new_component, Component.set_binning")])

p("C30", "Listings, saved code and drawings show exactly what is simulated",
  "For every component, the printed worksheet and code, the saved code and the drawn graphs of data and plugins show what was deduced last: each needed plugin once, in the order of execution, with its inputs and outputs (labels of the graph have them if asked, for every plugin drawn), each needed data name with the inputs it is computed from, nothing that is not needed, and nothing at all before a deduction. The summary of a likelihood shows each component once with its kind, rate and needed parameters. "
  "An irregular two-dimensional histogram is drawn with exactly one rectangle per bin covering it, coloured by its count (or density) alone. Text is indented line by line, and a timed function runs once and returns its result. Showing changes nothing.",
  ["configurations", "histories"],
  "every plugin graph up to a size x request, histories of registering and deducing, every combination of up to three components, every histogram over a small lattice of counts and binnings",
  "No test calls them or looks at the output.",
  ["appletree/utils.py", "appletree/profiler.py", "appletree/likelihood.py", "appletree/component.py"],
  [("graphs", "appletree/utils.py: add_deps_to_graph_tree, add_plugins_to_graph_tree, plot_irreg_histogram_2d, add_spaces, timeit"), ("listings", "appletree/profiler.py: print_worksheet, print_component_code; appletree/component.py: save_code; appletree/likelihood.py: print_likelihood_summary")])

p("C31", "The bundled components, instructions and contexts work as shipped",
  "Each bundled component simulates, for all data names it provides, one finite value per event: energies within (and over) the spectrum its options declare (uniform between the limits, mono-energetic, or the spectrum map), probabilities and efficiencies between 0 and 1, counts that are non-negative whole numbers, never more electrons after drifting than before, and with no parameters but those of its bundled file. "
  "Each bundled instruction makes a context with exactly its likelihoods and components, the parameters of its bundled file (copied ones like their sources), all data inside the clip range binned, and the declared rates as expected counts; moving a parameter changes the simulation of no likelihood it does not belong to, and every fitted parameter that plugins need changes some. The context classes are the contexts of their instructions. Every bundled parameter file starts inside its allowed ranges with a finite prior, and every bundled map has the values of its file.",
  ["configurations", "inputs"],
  "every bundled component x options of its spectrum x batch sizes, every bundled instruction x every parameter x moves x likelihoods, every product of rates, every parameter of every bundled file, every node of every bundled map",
  "Tests run two of the contexts and look at no result.",
  ["appletree/components", "appletree/contexts", "appletree/instructs", "appletree/parameters", "appletree/maps", "appletree/plugins"],
  [("bundled components", "appletree/components/er.py, nr.py, ac.py, yields.py; appletree/plugins"), ("bundled contexts", "appletree/contexts/er_only.py; appletree/instructs; appletree/parameters; appletree/maps")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
