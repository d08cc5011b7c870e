"""Writes /verif/properties.jsonl and /verif/MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, M, U, C, A, F, L, V, S = (
    "src/naima/" + x
    for x in ("radiative.py", "models.py", "utils.py", "core.py", "analysis.py", "model_fitter.py", "model_utils.py", "extern/validator.py", "sherpa_models.py")
)

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, **anchors):
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over.split(","), "text": text},
            "why_tests_cant": why,
            "anchors": dict({"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, **anchors),
        }
    )


prop(
    "P01",
    "Particle distribution functions have their documented closed forms",
    "For every energy (a number of any size, an array, in any energy unit) and every parameter value in any compatible units, the power law, exponential cutoff power law, broken power law, exponential cutoff broken power law and log-parabola evaluate to their documented formulae, in the unit of the amplitude and with the shape of the energies. Values of a broken law at the break belong to the low-energy branch's limit and both branches join continuously there. Evaluating with energies that are not energies is refused.",
    "inputs",
    "all parameter values, energies, array lengths, units",
    "The tests evaluate a few distributions at one or two energies in TeV; units, breaks inside arrays, sizes, and special exponents are not reached.",
    [M],
    [("PowerLaw.eval, ExponentialCutoffPowerLaw.eval, BrokenPowerLaw.eval, ExponentialCutoffBrokenPowerLaw.eval, LogParabola.eval", M), ("_calc and __call__ of each model convert the energies to eV and the result to the amplitude's unit", M)],
)
prop(
    "P02",
    "Table models interpolate in log-log; EBL transmission is in [0,1]",
    "A table model returns the amplitude times the value of the table at the tabulated energies, follows between them the cubic spline through its points in log-log (so that it is exact for a table that follows a power law), is zero outside the table, scales with the amplitude, and does not depend on the order of the rows or on the unit in which the table is given. The absorption by extragalactic background light is a transmission between 0 and 1: exp(-tau) with the tabulated optical depth at the nearest tabulated redshift (no absorption for redshifts below 0.01), 1 below the table, and above the table the same as at its last energy.",
    "inputs",
    "all tables, orders of rows, units, energies, redshifts",
    "The tests compare one table with itself and check one redshift at one energy; unsorted tables, other units and energies outside of the tables are not reached.",
    [M],
    [("TableModel.__init__ and _evalene", M), ("EblAbsorptionModel.__init__, transmission", M)],
)
prop(
    "P03",
    "Log-log trapezoidal integration is exact for piecewise power laws",
    "Integrating samples in log-log space gives, for each interval, the exact integral of the power law through its two end points, including the logarithmic case, and the total is the sum over the intervals along the requested axis. Intervals with a zero sample contribute nothing and never a NaN or infinity; the result does not depend on the scale of either argument except by the same factor.",
    "inputs",
    "all numbers of samples, values, axes, dimensions",
    "The tests integrate one or two power laws; the exponent -1, zeros, axes and lengths that break the rule are not reached.",
    [U],
    [("trapz_loglog", U)],
)
prop(
    "P04",
    "Flux, SED and luminosity are mutually consistent at every distance",
    "For every emission model, energy and distance, the SED is the energy squared times the differential flux, the flux is the differential luminosity divided by the area of the sphere of that radius, and a distance of zero gives the luminosity itself. The default distance is 1 kpc, results have the documented units whatever the units of the inputs, energies may come as an array, a dictionary or a table with a column of energies, and what is not an energy, a length or a number of particles per energy is refused.",
    "inputs",
    "all spectra, energies in any unit, distances in any unit",
    "The tests evaluate a few classes at one distance and compare integrals with stored numbers.",
    [R],
    [("BaseRadiative.flux, BaseRadiative.sed", R), ("_validate_ene, validate_scalar", R)],
)
prop(
    "P05",
    "Emission is proportional to the particles and to the targets",
    "Multiplying the particle distribution by a positive number multiplies the emission of every radiative process by that number. Multiplying the density of the target gas, the energy density of a thermal or monochromatic photon field or the density of a tabulated photon field by a number multiplies the emission by that number. The energy contained in the particles scales with the particles and does not depend on the targets.",
    "inputs",
    "all particle distributions, factors, target densities, energies",
    "Tests use one normalisation and one density; a hidden normalisation dependence is not seen.",
    [R],
    [("_spectrum of Synchrotron, InverseCompton, Bremsstrahlung, PionDecay, PionDecayKelner06", R), ("We, Wp", R)],
)
prop(
    "P06",
    "Energy content of the particles and its setter are inverse to each other",
    "The energy in particles is the integral of the energy times the particle distribution between the given limits, or between the limits of the model where none are given. Setting the energy content, with any limits and amplitude name, makes a following query with the same limits return that energy by changing only the normalisation of the particle distribution, in its own unit and without touching the object that the caller passed as amplitude. Anything that is not an energy is refused.",
    "inputs,histories",
    "all particle distributions, limits, energies, units; query-set-query histories",
    "Tests set one energy and query with default limits only.",
    [R],
    [("BaseElectron.We, compute_We, set_We; BaseProton.Wp, compute_Wp, set_Wp", R), ("_gam, _nelec, _Ep, _J", R), ("PionDecayKelner06.Wp", R)],
)
prop(
    "P07",
    "Caching never changes a result",
    "Evaluating a model after any history of evaluations and of changes of its parameters, particle distribution, targets or limits gives the same result as a fresh model with the same settings evaluated once. What a caller does to an array it received, or to the array it passed, changes no later result.",
    "histories,inputs",
    "all sequences of evaluations, parameter changes, and in-place modifications",
    "Tests compare one cached call with one repeated call; collisions between different states need specific histories.",
    [R, U, M],
    [("memoize", U), ("the _cache and _queue of every model", M), ("BaseRadiative.flux and InverseCompton.flux bypass or clear the cache", R)],
    state=[{"name": "_cache", "meaning": "last results by key", "where": M}, {"name": "_queue", "meaning": "order of the keys", "where": M}],
)
prop(
    "P08",
    "Synchrotron emission is the integral of its single-electron spectrum",
    "The synchrotron differential luminosity is the integral over the electron distribution of the pitch-angle averaged single-electron spectrum for that field strength, electron energy and photon energy, in the published approximation, with magnetic field and electron limits in any unit. It is finite and not negative for every non-negative electron distribution, and an electron-free model emits nothing.",
    "inputs",
    "all electron distributions, field strengths, photon energies, limits, units",
    "Tests compare one integrated luminosity for one set of parameters.",
    [R],
    [("Synchrotron._spectrum", R)],
)
prop(
    "P09",
    "Inverse Compton kernels follow the published forms and kinematics",
    "The inverse Compton scattering rates on isotropic thermal, anisotropic thermal, monochromatic and tabulated photon fields equal the published expressions, and the emission is the integral of the rate over the electron distribution. No photon is emitted with more energy than the electron has, and rates are never negative or NaN.",
    "inputs",
    "all electron energies, temperatures, angles, photon energies",
    "Tests compare integrated luminosities of a few fields.",
    [R],
    [("InverseCompton._iso_ic_on_planck, _ani_ic_on_planck, G12, G34, _iso_ic_on_monochromatic", R), ("_calc_specic, _spectrum", R)],
)
prop(
    "P10",
    "Inverse Compton photon fields are what the caller asked for",
    "Each photon field of the list (by name, or as name, temperature or energies, density, and optional angle, in any compatible units) is used with exactly the documented temperature, energy density and angle, a density given as zero meaning that of a black body. The total emission is the sum of the emission of the fields, the emission of one field can be asked for by name or by number with the flux and the SED at any distance, and malformed fields are refused.",
    "inputs,histories",
    "all lists of photon fields, units, orders, and queries",
    "Tests use a handful of lists and compare only totals.",
    [R],
    [("InverseCompton._process_input_seed", R), ("InverseCompton.flux, sed, _spectrum", R)],
)
prop(
    "P11",
    "Bremsstrahlung cross sections and their weights",
    "Bremsstrahlung emission is the sum of the electron-electron and electron-ion contributions, each the integral over the electrons of the published differential cross section times the speed of light, the target density and its weight; either weight may be zero. The cross sections are those of the documented reference in both energy regimes, vanish at and beyond the kinematic limit, where they are never NaN.",
    "inputs",
    "all electron distributions, weights, densities, photon and electron energies",
    "Tests compare one integrated luminosity.",
    [R],
    [("Bremsstrahlung._spectrum, _emiss_ee, _emiss_ei, _sigma_ee, _sigma_ep, _sigma_1, _sigma_2, _sigma_ee_nonrel, _F, _A", R)],
)
prop(
    "P12",
    "Pion decay emission follows the published parametrisation",
    "The gamma-ray spectrum from pion decay is the integral over the proton spectrum above threshold of the published differential cross section of the chosen hadronic model, including its transitions between energy regimes, times the density and the nuclear enhancement when it is asked for. The cross section is zero outside of the kinematic range, never negative, and the same whether or not a lookup table is used within the accuracy of the table.",
    "inputs,configurations",
    "all proton and photon energies, hadronic models, options",
    "Tests compare one spectrum for each hadronic model.",
    [R],
    [("PionDecay._sigma_inel, _sigmapi, _Amax, _F, _diffsigma, _nuclear_factor", R), ("_heaviside, _calc_Epimax..., LookupTable", R)],
)
prop(
    "P13",
    "Pion decay emission in the earlier parametrisation",
    "In the earlier parametrisation, the spectrum is the integral of the published inelastic cross section and gamma-ray yield above the transition energy, and below it the delta-function approximation scaled to join continuously there. Protons below threshold emit nothing and the emission is never negative.",
    "inputs",
    "all proton distributions, densities, photon energies, transition energies",
    "Tests compare one integrated luminosity.",
    [R],
    [("PionDecayKelner06._Fgamma, _sigma_inel, _calc_specpp_hiE, _calc_specpp_loE, _spectrum", R)],
)
prop(
    "P14",
    "Conversion between differential quantities and SEDs is exact",
    "Converting spectra between differential and SED forms multiplies or divides by the energy squared exactly, for fluxes, luminosities, particle numbers and densities in any units; the factor and unit returned always turn the source into the documented unit. Converting back and forth gives the original, and a unit that is neither form is refused.",
    "inputs",
    "all units, energies, kinds of spectra",
    "Tests convert two units at two energies.",
    [U],
    [("sed_conversion", U)],
)
prop(
    "P15",
    "Data tables are validated into the documented columns",
    "A valid flux table of any column choices, units and row count yields energies, energy bin edges, fluxes, errors, upper limit flags and confidence level that equal the table's contents row by row in the documented units, and several tables are joined so that each row keeps its own values and its own group. Tables with missing or wrongly dimensioned columns are refused, and building a table from arrays and validating it returns those arrays. Bin edges given as energies are returned as distances from the energies, rows come in the order of the energies, and the tables given are not changed.",
    "inputs",
    "all tables: columns present, units, number of rows and of tables",
    "Tests read a few stored files.",
    [U],
    [("validate_data_table, _validate_single_data_table, _validate_column, build_data_table", U)],
)
prop(
    "P16",
    "Energy bin edges enclose every point without overlap",
    "The energy bins generated for a set of distinct energies have each energy inside of its own bin of positive energies, neighbouring bins of the same group meet at the geometric mean of the two energies, the lowest bin of a group is symmetric in log energy and the highest in energy, and groups do not influence each other. This holds for any order of the energies and any unit, and the energies given are not changed.",
    "inputs",
    "all numbers and orders of energies, groups, units",
    "Tests use one sorted list of three energies.",
    [U],
    [("generate_energy_edges, _generate_energy_edges_single", U), ("build_data_table", U)],
)
prop(
    "P17",
    "The likelihood is the documented Gaussian likelihood with upper limits",
    "The data log-likelihood is minus half the sum over detections of the squared difference to the model in units of the error of the side on which the model lies, and for every upper limit a penalty that applies exactly when the model exceeds it and corresponds to that limit's own confidence level. It does not depend on the order of the data or on the units in which data and model are given, and is the best possible when the model meets the data.",
    "inputs",
    "all data, errors, limits, models, units",
    "Tests use one stored data set with a fixed level.",
    [C],
    [("lnprobmodel", C)],
)
prop(
    "P18",
    "Posterior and priors",
    "The log-posterior is the log-prior plus the log-likelihood, minus infinity where the prior excludes the parameters. The uniform, normal and log-uniform priors are the logarithms of those densities up to a constant and minus infinity outside of their support, and the returned blobs are the values computed by the model for these parameters, in their order, followed by an empty one where the sampler would otherwise merge them into a single array and lose their units.",
    "inputs",
    "all parameters, prior bounds, data and models",
    "Tests evaluate priors at a couple of points.",
    [C],
    [("lnprob", C), ("uniform_prior, normal_prior, log_uniform_prior", C)],
)
prop(
    "P19",
    "The preliminary fit never returns something worse than its start",
    "The minimiser returns a point whose function value is the reported one and the least of all points that it evaluated, the start among them, whatever the (deterministic, real-valued) function, and stops within the given number of iterations and, up to the points of one iteration, of evaluations. The preliminary fit never returns parameters less likely than the start; a failed preliminary fit, or one whose result the prior excludes, leaves the starting parameters unchanged.",
    "inputs,histories",
    "all objective functions, starting points, bounds and iteration limits",
    "Tests run it within one fit.",
    [C, "src/naima/extern/minimize.py"],
    [("_minimize_neldermead", "src/naima/extern/minimize.py"), ("_prefit", C)],
)
prop(
    "P20",
    "A saved run reads back to what was saved",
    "Saving a run and reading it gives the same chain, log-probabilities, blobs with their units, labels, run information, data table and results of every analysis function, for every number of blobs of each kind that can be saved (arrays, values, numbers and pairs of arrays). A run read can be saved again. Saving never overwrites an existing file unless told to.",
    "inputs,histories",
    "all chains, blobs, metadata",
    "Tests save one run with the default blobs and compare part of it.",
    [A],
    [("save_run, read_run, _result", A)],
)
prop(
    "P21",
    "Reported results are those of the chain",
    "The maximum-likelihood point reported is a sample of the chain with the largest log-probability, with its own parameters, likelihood and blobs. The results table contains for each parameter and each scalar stored with the samples the median of the samples (all, or those of the last step) and the distances to the 16th and 84th percentiles, in the unit stated whatever the units of the samples, the same for the values of parameters given as logarithms, and the best parameters, likelihood, Bayesian information criterion, number of samples and run information. It reads back as written, and an existing file is overwritten only when asked to.",
    "inputs",
    "all chains, log-probabilities, blobs, labels, options",
    "Tests check that a file is written.",
    [A, "src/naima/plot.py"],
    [("save_results_table", A), ("find_ML", "src/naima/plot.py")],
)
prop(
    "P22",
    "The field estimate follows from the ratio of the energy fluxes",
    "The estimated magnetic field is the field for which the ratio of the synchrotron to inverse Compton fluxes equals the ratio of its energy density to that of the photon fields, computed from the energy flux integrals of the X-ray and the very-high-energy points given, in any units and in differential or SED form; the default photon field is the cosmic microwave background. Malformed data sets are refused, as is the ratio of a flux and a luminosity.",
    "inputs",
    "all flux tables, photon field lists, units",
    "Tests call it on one data set.",
    [U],
    [("estimate_B", U)],
)
prop(
    "P23",
    "Input validation accepts exactly the documented inputs",
    "A number is accepted and returned unchanged exactly when it is a real scalar in the required domain, a quantity exactly when its unit has the required dimension (or one of several) and its value lies in the domain in whatever unit value and limits are given, and an array or sequence exactly when it has the required dimension of units, number of dimensions and shape. Everything else is refused: with a type error for the wrong kind, dimension or number of dimensions, and a value error for the wrong domain or shape.",
    "inputs",
    "all values, units, shapes, domains",
    "Tests do not test the validators except through valid inputs.",
    [V],
    [("validate_physical_type, validate_scalar, validate_array", V)],
)
prop(
    "P24",
    "Setting up a fit keeps the caller's inputs and meaning",
    "Setting up a sampler samples around exactly the starting parameters given, with the number of walkers asked for, passes the model, the prior and the validated data to the posterior unchanged, stores the documented run information, and modifies none of the caller's arrays or lists. If the normalization is to be guessed, the one parameter whose label names it (or its logarithm) is changed so that the model holds as much energy as the data, whatever the order and the form of the data. With too few labels the remaining ones get default names; a model whose output cannot be compared with the data is refused before sampling. A run starts an empty chain at the given positions, of the length asked for, and ends its processes.",
    "inputs,configurations",
    "all starting points, labels, options",
    "Tests run one model with default options.",
    [C],
    [("get_sampler, _run_mcmc, run_sampler", C)],
)
prop(
    "P25",
    "Fit-package wrappers return the same model",
    "Each wrapper for the external fitting package evaluates the corresponding radiative model with exactly its parameters: amplitude in 1e30/eV, energies in TeV, distance in kpc; a power law, cut off if the cut-off energy is not zero; for inverse Compton the CMB and each of the FIR and NIR fields whose energy density is not zero, for electrons from 1 GeV to 100 TeV. For photon energies in keV it returns energy times flux, in 1/(s cm2); for consecutive energy bins the flux integrated over each bin. Guessing changes the amplitude only, so that the total of the model is the one of the data. Of the parameters only the index and the amplitude are free in a fit unless told otherwise, and by default they describe a power law without cut-off at 1 kpc with the default targets of the radiative model.",
    "inputs,configurations",
    "all parameters and energies",
    "Tests call the wrappers without looking at what they return.",
    [S],
    [("SherpaModelECPL and its subclasses", S)],
)
prop(
    "P26",
    "Confidence bands are nested quantiles of the sampled models",
    "The confidence band at a level of x sigma is made, at each energy, of the sorted sampled models at the fractions cdf(-x) and cdf(x) of the normal distribution: ordered limits, nested for increasing levels, containing the (lower) median, on the energies of the models. The samples are those stored with the chain (all, or those of the last step, in order, with their energies and in consistent units) or, on a given range of energies, models of randomly drawn samples of the chain (or its last step) on logarithmically spaced energies of that range. The best model is that of the sample with the largest log-probability, stored or computed for its parameters at the energies it is shown with. What is drawn are these values converted to the energy unit and form asked for.",
    "inputs",
    "all chains, stored models, levels, energies, units",
    "Tests check that a figure is drawn.",
    ["src/naima/plot.py"],
    [("_calc_CI, _read_or_calc_samples, _process_blob, _calc_ML, find_ML, plot_CI, plot_samples", "src/naima/plot.py")],
)
prop(
    "P27",
    "Plots of data show every row, its errors, limits and residuals",
    "A plot of a flux table draws, for each group in its own colour, every detection once at its energy and flux with the horizontal bars of its energy bin and the vertical bars of its errors (a lower error that reaches zero is cut just above zero), and every upper limit as an arrow at the limit, in the energy unit and form (spectral energy distribution or differential) asked for. Residuals are the flux minus the model at the same energy (interpolated if the model has other energies) in units of the mean error, with error bars of one. A data plot takes the unit of energy asked for, or that of the plot already in the figure, or that of the data. A fit plot draws the samples, bands or best model of the sampler asked for together with its data and residuals, by default where model and data are comparable. Plotting changes neither the data nor the options given, and leaves nothing behind for later plots.",
    "inputs,configurations",
    "all tables, groups, models, units, forms and options",
    "Tests check that a figure is drawn.",
    ["src/naima/plot.py"],
    [("_plot_data_to_ax, _plot_ulims, _plot_residuals_to_ax, plot_data, plot_fit, plot_blob", "src/naima/plot.py")],
)
prop(
    "P28",
    "The interactive fitter shows and returns the parameters that were set",
    "The curve shown by the interactive fitter is the model at the parameters last shown, in the unit and form of the data, and the log-likelihood shown is that of the same parameters at the energies of the data. Its sliders, one for each parameter with its label, start at the parameters given, of any sign and size. Moving a slider changes the model while automatic updates are enabled, the update button always does. A fit starts at the values of the sliders, and its maximum becomes the parameters, sliders and curve. The parameters count as a maximum after a successful fit only and until something is changed. A run set up with the fitter starts at the parameters left in it, and fits them again only if they are not a maximum. The caller's parameters, labels and settings stay as they were.",
    "inputs,histories,configurations",
    "all sequences of actions listed, parameters, models, data, ranges",
    "Tests call the window's functions once and do not look at what is shown or returned.",
    ["src/naima/model_fitter.py", "src/naima/core.py"],
    [("InteractiveModelFitter", "src/naima/model_fitter.py"), ("get_sampler", "src/naima/core.py")],
)
prop(
    "P29",
    "Summaries of a chain report the samples of the parameter asked for",
    "The plot of a parameter shows the trace of every walker and the histogram, median and 16 to 84 per cent band of all samples of that parameter, or of those of the last step if asked for, and its text gives their median, standard deviation and the differences of the quantiles, for a logarithmic parameter also those of the parameter itself. The plot of a distribution does the same for its values, with their unit. Numbers are written to the precision of their errors. A corner plot gets all samples, names and the best parameters. Diagnostic plots are one for each parameter, one of all of them and one for each model asked for, each saved once under its own name or as a page of one file; a plot that fails does not prevent the others. Neither sampler, labels nor settings of the caller are changed.",
    "inputs,configurations",
    "all chains, parameters, labels, units, models and options",
    "Tests check that figures are drawn and files written.",
    ["src/naima/plot.py", "src/naima/analysis.py"],
    [("plot_chain, _plot_chain_func, plot_distribution, plot_corner, _latex_value_error", "src/naima/plot.py"), ("save_diagnostic_plots", "src/naima/analysis.py")],
)

TECH = "contracts on the real functions, verified deductively (symbolic execution of /repo's source, all obligations discharged by term normalisation, z3 and cvc5), each contract also evaluated on the real package"
NOTE = "All obligations of the listed contracts discharged on every run for all values, sizes and units over the reals; machine arithmetic is treated as mathematical and numpy, scipy and astropy are assumed to do what their models in pyvc say. The same contracts run on the real package with drawn inputs."
NOTES = {}
NA = {}
try:
    exec(open(os.path.join(HERE, "tools", "notes.py")).read())
except FileNotFoundError:
    pass


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "contracts", i + ".py")) and i not in NA:
            n = NOTES.get(i, {})
            checks.append(
                {
                    "property": i,
                    "quick_cmd": "./check.py %s --tier quick" % i,
                    "thorough_cmd": "./check.py %s --tier thorough" % i,
                    "technique": n.get("technique", TECH),
                    "level": n.get("level", "proof"),
                    "level_note": n.get("note", NOTE),
                }
            )
        else:
            na.append({"property": i, "reason": NA.get(i, "no contract built yet")})
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md. No hooks in /repo are needed.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
