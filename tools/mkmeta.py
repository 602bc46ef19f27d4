"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def at(f):
    return f if f.startswith('sandbox/') else 'package/inference/' + f


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = dict(files=[at(f) for f in files],
             mechanism=[dict(name=n, where=at(w)) for n, w in mech], hook_needed=None)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=at(w)) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=a), technique, note))


prop('C01', 'On/off counts: signal-count probabilities and the signal-rate posterior',
     'For any on-source and off-source counts and exposures, the probabilities that 0, 1, ... all of the on-source counts '
     'are due to the signal are finite, non-negative, sum to one and equal their analytic values; the posterior density of '
     'the signal rate is their Poisson mixture, and integrates to one over non-negative rates. '
     'The result for a data set does not depend on what was asked before, of it or of another data set, nor on whether '
     'rates are given as integers, floats, single numbers or arrays, and impossible counts are refused.',
     ['inputs', 'histories'], 'every pair of counts and exposures, signal rate and order of queries',
     'The repository has no test of these numbers: one example prints intervals for one data set.',
     ['count/onoff.py', 'count/_cbmlike.f', 'count/_cbmlike.pyf'],
     [('OnOff.pnsig, OnOff.sigmp', 'count/onoff.py'), ('sigctp, psigc', 'count/_cbmlike.f')],
     'runtime monitor of returned values over random call histories, against exact rational arithmetic',
     'Held on every sampled data set and query order; the reference is exact rational arithmetic up to 120 counts and '
     'extended-precision recursion above.')
prop('C02', 'Marginal likelihood of the signal rate: value, truncation, derivative, errors',
     'The log marginal likelihood of the signal rate lies between the log of the sum of the series terms that are at least the '
     'cutoff times the largest and the log of the full sum, for any data, rate and cutoff, plus the stated scale offset. '
     'Its single, array and with-derivative forms agree, the derivative is that of the value, and a value that '
     'under- or overflows is reported as an error rather than returned.',
     ['inputs', 'histories'], 'every data set, signal rate, cutoff and offset',
     'No test evaluates the likelihood at other than one data set, and none sees the truncation or the error paths.',
     ['count/onoff.py', 'count/_cbmlike.f'],
     [('OnOff.siglml and siglml with cutoff', 'count/onoff.py'), ('slmlike, vslmlike, slmliked, slml_offset', 'count/_cbmlike.f')],
     'runtime monitor of returned values against bracketing reference sums',
     'Held on the sampled inputs, to 1e-7 in the log; trusts scipy gammaln and logsumexp.')
prop('C03', 'Highest-density regions hold the stated probability and have the right edges',
     'For any gridded density in one or two dimensions, linear or logarithmic, the level returned for a probability content '
     'is one whose region holds that content within the requested tolerance, the content returned for a level is the '
     'probability above it, and regions grow as the level falls. The edges returned are exactly the places where the '
     'interpolated log density crosses the level, in order, on a finite range, including crossings on grid points, and '
     'more edges than fit are reported rather than dropped. A constant added to the log density changes nothing but '
     'the reported normalisation.',
     ['inputs', 'configurations'], 'every density, grid kind and size, content, level and tolerance',
     'The tests use single-peaked normal densities on linear grids with a few contents, so multiple regions, plateaus, '
     'edges, zero density and logarithmic grids are never seen.',
     ['grid/hpd.py', 'grid/hpdgrid.py', 'grid/_gridquad.f'],
     [('HPD, HPD2D, critlevel, xvalues', 'grid/hpd.py, grid/hpdgrid.py'), ('region sums', 'grid/_gridquad.f')],
     'runtime monitor of levels, contents and edges against direct integration of the interpolant',
     'Held on the sampled densities; content is defined by the piecewise linear interpolant of the grid.')
prop('C04', 'Adaptively refined grids stay ordered, complete, faithful and correctly summed',
     'After any sequence of first-pass and refinement steps a one-dimensional grid spans exactly its range with strictly '
     'increasing points, nowhere coarser than the base grid and dense enough around every listed peak, the stored value '
     'at each point is the function there, and the function is never called outside the range. The listed peaks are the '
     'greatest local maxima, best first, none twice, with the parameters of the local Gaussian fit; '
     'every quadrature and moment over the grid equals the trapezoid rule on its points, on linear and logarithmic grids.',
     ['inputs', 'histories', 'configurations'],
     'every function, range, grid kind, refinement settings and sequence of refinements',
     'The tests print results for one smooth two-peak function; refinement intervals that overlap, touch, coincide with grid '
     'points or leave the range are not sampled, and logarithmic grids are not refined at all.',
     ['grid/grid1d.py'],
     [('BasicGrid1D, Grid1D firstpass/secondpass', 'grid/grid1d.py'), ('RefinedInterval, BasicInterval', 'grid/grid1d.py'),
      ('LabeledMaxList', 'grid/grid1d.py')],
     'invariant monitors on live grids after every step of random refinement histories, reference quadrature',
     'Held on the sampled functions and histories.')
prop('C05', 'Plane and square integration rules are exact to their stated degree',
     'Every two-dimensional integration rule offered integrates every polynomial up to its stated degree exactly, to roundoff, '
     'using the stated number of nodes, for its own weight function and wherever it is mapped: any rectangle for the square '
     'rules, any mean and scale for the normal-weight rules. Nodes and weights offered for reuse '
     'give the same results as direct integration.',
     ['inputs', 'configurations'], 'every rule, polynomial of at most its degree, and map',
     'The tests integrate a few low-degree polynomials (at most 4), so that a wrong constant in a rule of degree 9, 11 or 13 '
     'goes unnoticed; three rules of the table were wrong.',
     ['integrate/cub2d.py', 'integrate/_cub2d_auto.py'],
     [('rule tables', 'integrate/_cub2d_auto.py'), ('NormWtCub2D, rect and square rules', 'integrate/cub2d.py')],
     'runtime monitor of integrals and evaluation nodes against exact moments',
     'Every monomial up to the degree is integrated by every rule, so exactness is settled up to roundoff for the rule itself; '
     'the maps are sampled.')
prop('C06', 'Adaptive integration: accurate where accepted, honest where not, within budget',
     'Adaptive integration of a smooth function, or of a vector of them, over any box of two or more dimensions evaluates it '
     'only inside the box, as often as it says and no more often than allowed (but for a last subdivision); polynomials within the degree of the '
     'rule are integrated exactly, and an accepted result is within its error bound of the integral. A result that did not '
     'reach the tolerance within the budget is never passed off as accepted, and bad arguments are refused. '
     'The result is the same on every call and does not depend on earlier ones.',
     ['inputs', 'configurations', 'histories'], 'every smooth integrand, box, tolerance, budget, rule and workspace size',
     'The tests integrate two fixed functions and compare the results by eye; budgets, restarts, rules and failure paths are '
     'not exercised, and the vector form could not be called at all.',
     ['integrate/adapt.py', 'integrate/adapt_vec.py', 'integrate/adapt_py.f', 'integrate/dcuhre_py.f',
      'integrate/dadhre.f', 'integrate/drlhre.f', 'integrate/dtrhre.f', 'integrate/dfshre.f', 'integrate/dinhre.f',
      'integrate/dchhre.f', 'integrate/d07hre.f', 'integrate/d09hre.f', 'integrate/d113re.f', 'integrate/d132re.f'],
     [('adapt', 'integrate/adapt.py, adapt_py.f'), ('adapt_vec', 'integrate/adapt_vec.py, dcuhre_py.f'),
      ('subregion heap and rules', 'integrate/dadhre.f, dtrhre.f, drlhre.f')],
     'recorded evaluation traces and results checked against analytic integrals and the budget',
     'Held on sampled integrands; the error bound is judged individually for polynomials and by batches for other '
     'integrands, as no adaptive rule can promise it.')
prop('C07', 'Observed information and likelihood step sizes match the curvature',
     'At an interior maximum of a smooth log likelihood, the step sizes found change it by the requested amount, and the '
     'observed information matrix is symmetric and equals minus its Hessian within the reported uncertainty. '
     'Parameter values and steps passed in are unchanged afterwards, and a search that does not converge, a likelihood '
     'that rises, is flat or not a number is reported as a failure in finite time.',
     ['inputs', 'configurations'], 'every smooth log likelihood, number of parameters, start, tolerance and iteration limit',
     'The tests print the matrix for two quadratic functions in two dimensions, whose derivatives any step size gets right.',
     ['deriv/obsinfo.py', 'deriv/_obsinfo.f', 'deriv/_obsinfo.pyf'],
     [('dllsteps, obsinfo', 'deriv/obsinfo.py, deriv/_obsinfo.f')],
     'runtime monitor of matrices, steps and evaluation traces against analytic Hessians',
     'Held on sampled families with known Hessians.')

prop('C08', 'Compiled routines stay inside their arrays, whatever they are given',
     'No call of a compiled routine, or of a class built on one, reads or writes memory outside its arrays, uses freed memory, '
     'ends the process or hangs it, whatever the sizes, kinds, layouts and values of the arguments and limits, and whatever '
     'callbacks return, raise or do, including calling the routine again. '
     'Input arrays are as they were afterwards, and a call with good arguments works as before after a call that failed.',
     ['inputs', 'configurations', 'fault_sequences', 'schedules'],
     'every argument and callback behaviour, on one thread or several that share the interpreter',
     'The tests pass well-formed arguments and run without sanitizers, so that a stray write goes unseen.',
     ['count/_cbmlike.f', 'deriv/_obsinfo.f', 'grid/_gridquad.f', 'integrate/adapt_py.f', 'integrate/dcuhre_py.f',
      'integrate/dadhre.f', 'count/_cbmlike.pyf', 'deriv/_obsinfo.pyf', 'integrate/adapt.pyf', 'integrate/dcuhre.pyf'],
     [('argument checks and workspace sizes of the wrappers', '*/*.pyf, */*.py'),
      ('array declarations and loop limits', '*/*.f')],
     'address and undefined-behaviour sanitizers and Fortran bounds checking under hostile call sequences',
     'No sanitizer report on the sampled calls; trusts the sanitizers, and sees only what the calls reach.')
prop('C09', 'Parameters: status, value and range change only as asked, or not at all',
     'After any sequence of fixing, varying, stepping, assigning and resetting parameters, on any number of instances of any number of '
     'models, each parameter has the value, status, range and steps last given it, the lists of fixed, varying and '
     'stepping parameters hold each exactly once, and reading a parameter gives its number. '
     'Operations that are refused (out of range, wrong status, bad ranges or names) raise an error and change nothing, and '
     'instances and classes do not affect each other. '
     'Stepping visits every combination of the stated values once, each a single step from the one before, listeners hear of '
     'every change, and saved sets of values can be put back.',
     ['inputs', 'histories'], 'every model and sequence of operations on its instances',
     'The tests follow a few short sequences on one instance; refusals, several instances, subclasses and long '
     'histories are not reached.',
     ['pie/realparam.py', 'pie/param.py', 'pie/inference_base.py', 'pie/autoname.py', 'pie/signalmodel.py'],
     [('RealParam descriptors and RealParamValue', 'pie/realparam.py'), ('parameter lists, step_params, set_params', 'pie/inference_base.py'),
      ('HasAutoNamed', 'pie/autoname.py')],
     'online monitor: a reference state machine compared with the real objects after each operation of random histories',
     'Held on the sampled histories.',
     state=[('parameter lists', 'fixed, varying and stepping parameters of an instance', 'pie/inference_base.py'),
            ('RealParamValue', 'value, status, range and step of a parameter of an instance', 'pie/realparam.py')])
prop('C10', 'Grids over stepping parameters: every point once, value where it belongs',
     'Evaluating an inference over its stepping parameters evaluates every point of the grid of stated steps exactly once, '
     'each a single step from the one before, whatever was stepped earlier, and stores in the result the score, and where asked the optimum over the '
     'varying parameters, at the index of its own point. '
     'The best point reported is the best of the grid with its index and parameters, and the sense of better is that '
     'of the inference (least chi-squared, greatest likelihood or posterior). '
     'Afterwards, and after an evaluation that fails, fixed parameters are as they were and statuses are unchanged.',
     ['inputs', 'histories', 'fault_sequences'],
     'every grid, mix of statuses, earlier stepping, and point at which an evaluation fails',
     'The tests evaluate two small grids.',
     ['pie/inference_base.py', 'pie/chisqr.py', 'pie/maxlike.py', 'pie/bayes.py', 'pie/containers.py'],
     [('do_grid, ScalarGrid', 'pie/inference_base.py, pie/containers.py')],
     'recorded traces of model evaluations checked for coverage, order and exactly-once, results against known optima',
     'Held on the sampled grids; models are linear, so that optima are known.')
prop('C11', 'Minimisers: valid brackets, never worse than the start, honest about failure',
     'A bracket found for a function has its middle value no greater than its ends, with the values of the '
     'function there, and line and multidimensional minimisation return a point with its true value that is no worse than '
     'the start, within the limits set for evaluations and iterations. '
     'For smooth functions with a single minimum the point returned is that minimum within the tolerance, and a search that '
     'reaches its limits or has no minimum to find fails or says so in finite time. '
     'Start points and directions passed in are unchanged.',
     ['inputs', 'configurations'], 'every function, start, scale, tolerance and limit',
     'No test reaches them but through one fit.',
     ['utils/nrmin.py'],
     [('MinBracket, brent, linmin, powell', 'utils/nrmin.py')],
     'recorded evaluation traces and results checked against known minima',
     'Held on the sampled functions; multidimensional accuracy is judged by batches, as direction sets may collapse.')
prop('C12', 'Fits: optimum within the ranges, nothing else moved, information is curvature',
     'Optimising an inference over its varying parameters returns a score that is that of the parameters '
     'returned, no worse than the start, and the optimum of a smooth model whose optimum lies in the ranges, within the '
     'tolerance. '
     'The inference is left at the optimum reported, with other parameters and all statuses unchanged, and with bounds '
     'mapped the model is never evaluated outside the ranges. '
     'Observed information equals the curvature of the score at the optimum, leaves the parameters there, and '
     'failures of the model are passed on.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every model, data set, subset of varying parameters, range, and point at which an evaluation fails',
     'The tests fit one data set, from one start.',
     ['pie/inference_base.py', 'pie/chisqr.py', 'pie/maxlike.py', 'pie/bayes.py', 'utils/nrmin.py'],
     [('optimize, minimize/maximize', 'pie/inference_base.py'), ('obs_info', 'pie/inference_base.py'),
      ('bounds and unbounded maps', 'pie/realparam.py')],
     'recorded traces of model evaluations checked online for ranges and frame conditions, results against known optima',
     'Held on the sampled models; accuracy where the optimum is not known in closed form is judged by batches.')
prop('C13', 'Gaussian data: likelihood, instances and simulation agree with the data',
     'For data given in any accepted form, the log likelihood and chi-squared are those of independent normal '
     'errors about the model at the current parameters, and predictors of different '
     'instances keep their own data. '
     'Simulated data are normal about the model with the stated errors at the sampled locations, have the shape and '
     'number of the design, replace or extend the data as asked, and then are what the likelihood uses.',
     ['inputs', 'histories'], 'every data set, form, model and sequence of simulations and parameter changes',
     'The tests use one small data set and no simulation.',
     ['pie/gaussian.py', 'pie/predictor.py', 'pie/chisqr.py', 'pie/maxlike.py', 'pie/bayes.py'],
     [('SampledGaussian: data forms, sim, log_like', 'pie/gaussian.py'), ('per-instance data', 'pie/predictor.py')],
     'runtime monitor of likelihoods and data over random histories against a reference, distribution tests of simulations',
     'Held on the sampled data; distributions are tested at levels that never alarm on the right one.')
prop('C14', 'Stores and backups: what was saved is what is loaded, and crashes lose nothing',
     'What a store of arrays or attributes saves is what a later load returns, values, types and shapes alike, whatever '
     'was assigned, reassigned and loaded before, also over sequences of saves by several stores that share a file. '
     'Each save keeps the two versions before it, in order under backup names; a save that fails changes no file, and one '
     'cut short by a crash leaves the last two versions readable under their own or backup names. '
     'Columns of numbers read from text are the numbers in the text.',
     ['inputs', 'histories', 'crash_points', 'fault_sequences'],
     'every sequence of assignments, saves and loads, and every point of a save at which it fails or the process ends',
     'No test saves twice, and none fails or crashes during a save.',
     ['utils/ioutils.py'],
     [('ArrayStore, AttrStore', 'utils/ioutils.py'), ('safe_open, backup', 'utils/ioutils.py'),
      ('read_column_vectors', 'utils/ioutils.py')],
     'model of the files checked after each operation, with injected failures and process ends at each line of a save',
     'Held on the sampled histories; crashes are ends of the process, not of the machine.')
prop('C15', 'Saved generator states repeat the random sequence exactly',
     'After restoring a saved state of the random number generator, in the same process or a new one, the draws that follow are exactly '
     'those that followed the save, whatever kinds of draws came before and after, including a pending normal deviate. '
     'Saving does not disturb the sequence, earlier saved states are kept as backups, and a failed restore leaves the '
     'generator as it was.',
     ['histories', 'inputs'], 'every sequence of draws, saves and restores',
     'No test saves the state.',
     ['utils/rng.py', 'utils/ioutils.py'],
     [('save_rng, restore_rng', 'utils/rng.py')],
     'recorded draw sequences compared after restores, in this and new processes',
     'Held on the sampled histories.')
prop('C16', 'Steppers, sums of logarithms and zero brackets are exact over their whole range',
     'Steppers over a range give exactly the stated number of values, from the first end to the last, equally spaced '
     'linearly or logarithmically, and each can be used again and beside others. '
     'Sums of numbers given by their logarithms have the right count, mean and standard deviation over the whole range of exponents, without '
     'overflow, in any order. '
     'A bracket of a zero returned encloses a change of sign, and where expanding the range as often as allowed '
     'finds one, it is found.',
     ['inputs', 'histories'], 'every range, number of steps, sequence of terms, and function',
     'No test covers them.',
     ['utils/numutils.py', 'pie/realparam.py'],
     [('lin_stepper, log_stepper, LogSummer, zbracket', 'utils/numutils.py')],
     'runtime monitor of values against extended-precision references',
     'Held on the sampled inputs.')
prop('C17', 'Plots show the function where it is, with the levels asked for',
     'A contour plot of a gridded function of two variables draws its contours where the interpolated '
     'function has the stated or default levels, with images, overlays, cross hairs and read-outs that show the '
     'value at the place pointed to, for either index order and any axis limits. '
     'Plots of results over one or two stepping parameters show the values against the parameters, named, in their own units and '
     'scale.',
     ['inputs', 'configurations'], 'every grid, level set and combination of options',
     'The tests do not look at figures.',
     ['utils/plot_bivar.py', 'pie/containers.py'],
     [('plot_bivar', 'utils/plot_bivar.py'), ('ScalarGrid.plot', 'pie/containers.py')],
     'figures drawn without a display, their artists read back and compared with the function',
     'Held on the sampled grids; trusts that Matplotlib draws the artists it holds.')
prop('C18', 'Models linear in their amplitudes: fit, statistics, residuals, covariance',
     'For any basis functions, data and errors, the Bretthorst algorithm gives, for the nonlinear parameters asked about, the '
     'amplitudes of the least-squares fit, the sum of its squared residuals and the sufficient statistic, which add up to the sum '
     'of squares of the standardised data, the inverse square root of the determinant of the metric, the standardised residuals, '
     'and the covariance of the amplitudes, the inverse of the metric. Basis functions are given exactly those parameters, '
     'the abscissas and the result of the set-up function for them. Answers depend only on the parameters asked about, '
     'whatever was asked before, of this instance or another, and whether or not it failed; answers given earlier stay as they '
     'are. A degenerate basis, data and errors of inconsistent shape, and a covariance before any fit are refused. '
     'Analyses give back the memory they use.',
     ['inputs', 'histories'], 'every basis, data set and sequence of questions, including ones that fail',
     'The package runs this code with a placeholder for its core, so its tests cannot run it at all.',
     ['gauss/vecba.py', 'gauss/vbamodule.c'],
     [('BA, BAObj', 'gauss/vecba.py'), ('metricAnalysis, covar', 'gauss/vbamodule.c')],
     'run-time monitor over histories of questions against singular value decomposition, with the C core also under '
     'address and undefined-behaviour sanitizers',
     'Held on the sampled histories, with vbamodule.c compiled with definitions of what Python 2 had and put in place of the '
     'placeholder; bases with condition numbers up to 1000.',
     state=[('pars, modvals, ampl, suf, Q, Jac', 'the last parameters and the fit for them', 'gauss/vecba.py')])

prop('C19', 'Populations and densities are sampled in proportion and reproducibly',
     'Samples from a population with any weights, with replacement, hold each member with the probability of its weight, '
     'independently; subsets hold distinct members, as many as asked for, each member being included with probability '
     'proportional to its weight, by either method, with whole subsets distributed as the stated scheme has it, and members that '
     'are certain in every one. A piecewise linear density given by values or logarithms of values on an even grid, or by '
     'values at any abscissas, integrates to one, is the interpolation of the values with those below the cutoff taken as zero, '
     'and is the density of the samples drawn from it. What is drawn depends only on the state of the random number generator, '
     'the population and what is asked, not on what was asked before, and the generator moves on with its pending deviate kept. '
     'Descending distributions of valued populations fall to the weight at or above each value. Sizes that are impossible, '
     'weights that are all zero, and inconsistent lengths are refused, without disturbing the generator; arguments are unchanged. '
     'Draws give back the memory they use, and the compiled sampler refuses steps that are out of order.',
     ['inputs', 'histories'], 'every population, density, generator state and sequence of samples',
     'The package does not build the core of this code, so its tests cannot run it at all.',
     ['mc/population.py', 'mc/pwlinear.py', 'mc/_ppssampler.c', 'mc/sampford.c', 'mc/compact5table.c'],
     [('Population', 'mc/population.py'), ('PWLinear', 'mc/pwlinear.py'), ('sampford_pps', 'mc/sampford.c')],
     'run-time monitor over histories of draws: membership, repetition from restored states, and frequencies by chi squared '
     'against exact distributions, with the C core also under address and undefined-behaviour sanitizers',
     'Held on the sampled histories, with _ppssampler.c compiled with definitions of what Python 2 had; frequencies judged at odds '
     'below 1e-11 per test, so that small biases can go unseen.',
     state=[('rng_state', 'copy of the state of the numpy generator', 'mc/_ppssampler.c'),
            ('did_init, nsamp, did_Sampford_tables', 'what has been prepared', 'mc/population.py')])

prop('C20', "Keplerian orbits: anomalies solve Kepler's equation; velocities follow",
     'For every orbit (period, eccentricity below one, and phase given by the time of periastron or by the mean anomaly at '
     "time zero) and every time, the eccentric anomaly solves Kepler's equation to the tolerance set, and the cosines and sines of "
     'the eccentric and true anomalies belong to it, whether asked for one time, for an array of times, or to be stored '
     'in an array of any layout; an equation that is not solved raises an exception and is never answered with other numbers. '
     'Line-of-sight velocities, their terms K1 and K2, and curves against phase follow from these by the stated formula, the same '
     'from the function and from an orbit object, for times given now or before. '
     'Several orbits can be used in turn without disturbing one another, and calls that are refused raise and change nothing. '
     'Calls give back the memory they use, refused or not.',
     ['inputs', 'histories'], 'every orbit, time, tolerance, array layout and sequence of calls',
     'No test covers this code.',
     ['sandbox/signals/kepler.py', 'sandbox/signals/fkeplermodule.c'],
     [('Orbit, v_rad', 'sandbox/signals/kepler.py'), ('t2EA, t2TA, t2anoms', 'sandbox/signals/fkeplermodule.c')],
     'run-time monitor over histories of calls against a solution by bisection in extended precision, also under address and '
     'undefined-behaviour sanitizers',
     'Held on the sampled histories, with fkeplermodule.c compiled with definitions of what Python 2 had.',
     state=[('tau, e, Tp, err', 'the orbit and tolerance in force', 'sandbox/signals/fkeplermodule.c'),
            ('cs_TA', 'the anomalies last computed for an orbit', 'sandbox/signals/kepler.py')])


prop('C21', 'Periodic point processes: Rayleigh statistics, piecewise-constant models',
     'For every set of event times (of any sign, size and order), frequency, frequency derivatives, and number of bins: the '
     'Rayleigh sums and power, at one frequency or on an even grid, equal the sums of sines and cosines over the events, and lml_wk is the '
     'log marginal likelihood of the von Mises model. A piecewise-constant model folds every event into exactly one phase bin, and its likelihood '
     '(lml_pw) and chi-squared (chi_pw) at a phase are those of the counts; sml_w and avgchi_w are the integrals of these over phase, exactly with qpts=0 and '
     'by the trapezoid rule otherwise, up to the documented factor exp(offset); rate_est gives the posterior mean and standard deviation of '
     'the rate at each phase. Parameters left out of a call keep the values last given, after a change of bins or quadrature too; '
     'models do not share state with each other or with the array of times they were made from; questions that lack data, bins, '
     'a frequency or a quadrature are refused. Calls give back the memory they use.',
     ['inputs', 'histories'], 'every set of events, frequency, number of bins, quadrature and sequence of calls',
     'No test covers this code.',
     ['sandbox/point/periodic/periodic.py', 'sandbox/point/periodic/_rayleigh.c', 'sandbox/point/periodic/_pcperiodic.f'],
     [('PCModel', 'sandbox/point/periodic/periodic.py'), ('rayleigh, rsgrid, lml_wk', 'sandbox/point/periodic/_rayleigh.c'),
      ('fbindata, sml_wb, rate_wb', 'sandbox/point/periodic/_pcperiodic.f')],
     'run-time monitor over histories of calls on several models against sums over events folded in extended precision, also '
     'under address, undefined-behaviour and array-bounds sanitizers',
     'Held on the sampled histories, with the extensions compiled here, since no package of the repository builds them.',
     state=[('w, wdot, wddot, nbins, qpts, offset', 'settings of a model that calls leave out', 'sandbox/point/periodic/periodic.py')])


prop('C22', 'Regression lines: estimates and standard errors by their definitions',
     'For every set of points (any scale, offset, scatter and sign of the slope): the six lines of SixLin, and the four of BCES, from which '
     'known and possibly correlated errors that differ from point to point are removed, have the slopes and intercepts of '
     'their definitions, and standard errors equal to those of the infinitesimal jackknife; wlss gives the weighted line for the '
     'measurement errors and the intrinsic scatter they leave, which is zero when they leave none; bistats and BiStats are the '
     'moments of the data. Arrays, lists, views, and scalars for constant errors are all accepted; the data are not altered; results '
     'keep the data and errors used; mismatched lengths, single points and data without covariance raise ValueError.',
     ['inputs'], 'every set of points, errors and form of the arguments',
     'No test covers this code.',
     ['sandbox/regress/regress.py', 'sandbox/regress/_regress.f'],
     [('SixLin, BCES, wlss, bistats, BiStats', 'sandbox/regress/regress.py'), ('bess, wlss, datstt, sixlin', 'sandbox/regress/_regress.f')],
     'run-time monitor of every result against the definitions and an infinitesimal jackknife (complex steps), also with array '
     'bounds checks, sanitizers and poisoned locals',
     'Held on the sampled data, with the extension compiled here, since no package of the repository builds it.')


prop('C23', 'Directions with Fisher uncertainties: likelihoods, coincidences, fits',
     'For every direction, given by longitude and latitude, by right ascension and declination, in radians or degrees, or by unit vector, and every '
     'uncertainty, given by the concentration (zero for none known) or by the angular radius that holds 68.3%: that radius holds that '
     'probability, the log-likelihood of a direction is the logarithm of the normalized Fisher density, and products are cosines. Log Bayes factors '
     'that two, three or more directions coincide equal the ratio of integrals over the sphere, whatever the order and however close or '
     'opposite the directions; the common direction fitted has the greatest likelihood, with the stated loss and concentration. '
     'Directions given in more than one way, in part or not at all, no uncertainty or two, and radii that no distribution has, are refused with ValueError.',
     ['inputs'], 'every direction, uncertainty, number of directions and form of the arguments',
     'No test covers this code.',
     ['sandbox/drxn/drxn.py', 'sandbox/drxn/fisher_coinc.f'],
     [('Direction, FDirection, doublet_lbf, triplet_lbf, multiplet_lbf, fisher_lml, fisher_fit', 'sandbox/drxn/drxn.py'),
      ('sig_to_kappa, lsinhc', 'sandbox/drxn/fisher_coinc.f')],
     'run-time monitor of every result against closed forms in extended precision and quadrature over the sphere, also with '
     'bounds checks, sanitizers and poisoned locals',
     'Held on the sampled directions, with the extension compiled here, since no package of the repository builds it.')


prop('C24', 'Sinusoids in uniformly sampled series: transforms and least squares',
     'For every real series at equal intervals and every oversampling: the transform is the zero-padded discrete Fourier transform; frequencies, '
     'indices, the nearest grid frequency, brackets of three, power and the written table all refer to the same grid, the newest one '
     'after another transform. For harmonics of a grid frequency, and for sets of frequencies moved to the grid, interpolated quadratically in it or '
     'exact (any order, list, tuple or array, which stays as given): metric, lower Cholesky factor, Jacobian (one over the square '
     'root of the determinant), amplitudes, sufficient statistic and covariances are those of linear least squares with cosines and sines; '
     'the uncertainty of each amplitude includes the covariance of its parts; without a known noise level its variance is the residual sum of squares over '
     'the number of samples less amplitudes less two, with its uncertainty. Analyses do not affect each other; samples are not altered; the compiled '
     'code keeps no references and no memory. Frequencies of zero or given twice, mismatched shapes, results before an analysis and lookups before a transform are refused with errors.',
     ['inputs', 'histories'], 'every series, oversampling, set of frequencies and sequence of transforms and analyses',
     'No test that runs covers this code.',
     ['sandbox/bha/bha.py', 'sandbox/bha/USTimeSeries.py', 'sandbox/bha/bhacalc.c'],
     [('Harmonics, Multiplet, qinterp', 'sandbox/bha/bha.py'), ('USTimeSeries, FreqList', 'sandbox/bha/USTimeSeries.py'),
      ('harmonicAnalysis, multipletAnalysis, covar', 'sandbox/bha/bhacalc.c')],
     'run-time monitor of histories of transforms and analyses against least squares with the basis functions summed in extended precision, also with '
     'address and undefined-behaviour sanitizers and reference counts',
     'Held on the sampled series, with the extension compiled here, since no package of the repository builds it.')


def main():
    import glob
    built = {os.path.basename(p)[:3].upper() for p in glob.glob(VERIF + '/checks/c[0-9]*.py')}
    with open(VERIF + '/properties.jsonl', 'w') as f:
        for p, _, _ in P:
            if p['id'] in built:
                f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='bash bin/setup',
             checks=[dict(property=p['id'], quick_cmd='bash bin/check ' + p['id'],
                          thorough_cmd='VERIF_TIER=thorough bash bin/check ' + p['id'], technique=t, level='exploration',
                          level_note=n) for p, t, n in P if p['id'] in built],
             not_applicable=[],
             notes='No hooks: every property is observed at the public interface. Each check builds the package from '
                   "/repo's working tree in a scratch directory under /tmp that it removes.")
    with open(VERIF + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
