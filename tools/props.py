"""The properties: text, anchors and how each one is decided."""

PROPS = []
#: properties that bound runtime numbers
NOT_APPLICABLE = {
    "C29": "Bounds a discretisation error: how far the discrete transform is "
           "from the integral depends on the sampled values and the padding; "
           "no static argument in reach bounds it. C22 decides that the "
           "documented transform (padding, Hilbert transform, cut) is "
           "computed.",
    "C30": "Convergence of Newton's method depends on the runtime values of "
           "circuit and response function. C16 and C17 decide that the "
           "steps are Newton's and that convergence is reported as it is.",
    "C31": "Bounds the tail of sums of Bessel functions at runtime "
           "arguments. C14 and C15 decide that the sums are the documented "
           "ones up to the given limits.",
    "C32": "Concerns estimates from noisy data by optimisation and searches "
           "for maxima; their error depends on the measured values. C07 and "
           "C19 decide where the estimates are used.",
}
ALL = ["qmix/circuit.py", "qmix/harmonic_balance.py", "qmix/qtcurrent.py",
       "qmix/respfn.py", "qmix/exp/exp_data.py", "qmix/exp/iv_data.py",
       "qmix/exp/if_data.py", "qmix/exp/if_response.py",
       "qmix/exp/clean_data.py", "qmix/mathfn/ivcurve_models.py",
       "qmix/mathfn/kktrans.py", "qmix/mathfn/filters.py",
       "qmix/mathfn/misc.py"]


def P(id, title, statement, for_all, tests, files, mechanism, observe,
      technique, note, over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      for_all=for_all, tests=tests, files=files,
                      mechanism=mechanism, observe=observe,
                      technique=technique, note=note, over=list(over)))


P("C01", "Calls never modify what the caller passed in",
  "No simulation, import, cleaning, model, transform or plotting call "
  "changes any array, list, dictionary, circuit, response function or data "
  "object that the caller passed in, whatever its shape, order or content. "
  "The only exception is a circuit's own set, lock and unlock operations, "
  "which change that circuit.",
  "every public entry point, every argument (views, unsorted data, NaNs, "
  "masked signals, every mode and option), every path including early "
  "returns",
  "The tests hand over fresh data and look at the result only; a write to "
  "the argument shows on the second use of the same data and on branches "
  "(sorting, normalization, masking) the sample inputs do not take.",
  ALL, [("copies taken before in-place work", "qmix/exp/iv_data.py"),
        ("local copy of the Thevenin voltages",
         "qmix/harmonic_balance.py harmonic_balance"),
        ("copies in the cleaning functions", "qmix/exp/clean_data.py")],
  ["argument arrays after the call"],
  "interprocedural points-to and mutation-effect analysis",
  "Every write reachable from every public entry point is resolved to the "
  "buffers it may hit; a write that may hit caller-owned storage is "
  "reported. Sound up to the models of NumPy/SciPy/Matplotlib calls.")

P("C02", "Results own their data",
  "Arrays returned by an import, cleaning, model, transform or simulation "
  "call, and arrays stored in the objects these calls construct, share no "
  "memory with the arrays the caller passed in, with another object of the "
  "same kind or with the library's own default tables. Two exceptions are "
  "part of the interface: splitting a matrix into two columns, and a "
  "circuit's normalized photon voltage, which is its frequency array.",
  "every public entry point and constructor, every path and option",
  "Sharing is invisible to a test that looks at one result once; it needs a "
  "later write through the other name.",
  ALL, [("fresh arrays built by interpolation, copy or arithmetic",
         "qmix/exp/iv_data.py, qmix/harmonic_balance.py"),
        ("per-object copy of the option table", "qmix/exp/exp_data.py")],
  ["memory reachable from a result after the argument is changed"],
  "interprocedural alias and escape analysis",
  "May-alias analysis of array buffers: no buffer reachable from a result "
  "may be an argument's buffer, module state or a class attribute.",
  over=("inputs", "histories"))

P("C03", "No hidden or process-wide state",
  "After import, no call changes process-wide settings (NumPy error "
  "handling, warning filters, plotting defaults, working directory, "
  "environment, random seeds) or leaves anything behind in module "
  "variables, class attributes, default arguments or caches. Results "
  "depend only on the arguments: not on the clock, on random numbers, on "
  "the environment or on earlier calls.",
  "every public entry point, every path, any order of calls",
  "The suite runs each function in one process and cannot see settings "
  "that leak, nor compare histories of calls.",
  ALL, [("scoped error state", "qmix/mathfn/ivcurve_models.py"),
        ("option dictionaries copied before update",
         "qmix/exp/exp_data.py, qmix/exp/iv_data.py")],
  ["np.geterr(), warnings.filters, plt.rcParams, module tables, repeated "
   "results"],
  "effect analysis of process/global state plus dependence analysis",
  "All reachable calls and stores are classified; result dependences are "
  "checked against clock, random and environment sources.",
  over=("inputs", "histories"))

P("C04", "Quiet mode is quiet",
  "With verbosity switched off, importing data, building response "
  "functions, computing tunneling currents, harmonic balance and IF "
  "analysis print nothing at all, except a warning that something is wrong "
  "with the data or that a target was not reached. With debugging off no "
  "figure window is ever opened.",
  "every function with a verbosity switch, every path and option "
  "combination",
  "Tests do not look at the output, and most progress messages sit on "
  "paths (impedance recovery, fits, refinement) the sample options skip.",
  ["qmix/exp/exp_data.py", "qmix/exp/if_data.py", "qmix/exp/iv_data.py",
   "qmix/harmonic_balance.py", "qmix/qtcurrent.py", "qmix/respfn.py"],
  [("verbose guards and forwarding of the switch", "all listed files")],
  ["standard output with verbose=False"],
  "interprocedural constant propagation of the switch, reachability of "
  "output calls",
  "The switch is propagated as a constant through every call; any print "
  "still reachable must be a warning text under a test of the data.",
  over=("inputs", "configurations"))

P("C05", "Display options and labels never influence results",
  "Verbosity, debugging plots, comments, names, plot ranges and figure "
  "names have no influence on any number the library computes: with the "
  "same data and physics options, every array and scalar result is the "
  "same whatever these options are.",
  "all inputs, all values of the display options, all result attributes",
  "Two runs that differ only in a display option are never compared by the "
  "tests, and a leak may need a particular data branch.",
  ALL, [("display code separated from computation", "all listed files")],
  ["all attributes of the data and response objects, returned arrays"],
  "noninterference by data/control dependence analysis",
  "Dependence sets (data and control, interprocedural, flow sensitive) of "
  "all results are checked for display labels.",
  over=("inputs", "configurations"))

EXP = ["qmix/exp/exp_data.py", "qmix/exp/iv_data.py", "qmix/exp/if_data.py",
       "qmix/exp/if_response.py", "qmix/exp/parameters.py"]

P("C06", "Given options are used, missing ones fall back to the default table",
  "For every importer (DCData, PumpedData, dciv_curve, iv_curve, dcif_data, "
  "if_data, if_response): a keyword option that is given is used wherever "
  "that option matters, never its entry in the table of default parameters "
  "(qmix.exp.parameters.params); an option that is not given takes exactly "
  "its own entry of that table, never the default of another option and "
  "never a second, hard coded default.",
  "every importer, every option of the table, present or missing, on every "
  "path",
  "There are some forty options and seven importers, with lookups in a "
  "dozen functions; the tests give a handful of them, and mostly values "
  "that equal the defaults.",
  EXP, [("kwargs lookups with a fallback to params", "qmix/exp/*.py"),
        ("default table", "qmix/exp/parameters.py")],
  ["results with the option given, and with the option missing after the "
   "default table was changed"],
  "interprocedural dependence analysis with labelled option tables",
  "Each default is a labelled unknown; results are checked for the labels "
  "of defaults that must not / must reach them with each option missing.",
  over=("inputs", "configurations"))

P("C07", "Options and measurements act where documented and nowhere else",
  "Each import option and each measurement reaches the results it is "
  "documented to control and no others: units, offsets, series resistance "
  "and filter options reach the imported I-V curves and what is computed "
  "from them; embedding-circuit options reach only the recovered embedding "
  "circuit; hot/cold temperatures, bias-point and IF filter options reach "
  "only the IF results; normal/subgap resistance ranges, leakage voltage, "
  "junction area and smear only their own DC results. IF data never "
  "influences I-V results and the pumped I-V curve never influences noise "
  "temperature or gain. Switches really switch off (filter_data=False, "
  "analyze_iv=False, analyze_if=False), and a given offset, gap voltage, "
  "embedding impedance or best bias point is used as given, also when it "
  "is zero. Every physical argument of a simulation or response function "
  "reaches its result.",
  "all importers, simulations and response functions; every option value "
  "and every data set",
  "An option that is ignored or leaks on one path is visible only by "
  "comparing runs that differ in that option alone, for every option and "
  "result.",
  EXP + ["qmix/qtcurrent.py", "qmix/harmonic_balance.py", "qmix/respfn.py",
         "qmix/circuit.py"],
  [("option and data flow through the import pipeline", "qmix/exp/*.py"),
   ("argument flow of the simulation", "qmix/qtcurrent.py, "
    "qmix/harmonic_balance.py")],
  ["attributes of DCData and PumpedData; returned arrays"],
  "data/control dependence analysis against a table of sources and sinks",
  "Absence of a dependence is definite (the analysis over-approximates); "
  "a forbidden dependence is reported when it cannot be excluded.",
  over=("inputs", "configurations"))

P("C08", "Only documented unit, model and mode names are accepted",
  "Every parameter that selects by name - v_fmt and i_fmt of the importers, "
  "best_pt, the model of the exponential I-V curve, the mode of harmonic "
  "balance, the power units and frequency units of the circuit - accepts "
  "each documented name (power, frequency units and best_pt in any case; "
  "v_fmt and i_fmt case sensitive) and rejects every other string with an "
  "error, before anything is changed.",
  "every such parameter, every string",
  "Tests try one wrong name per function; prefixes, other cases and names "
  "on a path that is skipped are not tried.",
  ["qmix/circuit.py", "qmix/harmonic_balance.py", "qmix/exp/iv_data.py",
   "qmix/exp/if_data.py", "qmix/mathfn/ivcurve_models.py"],
  [("unit branches", "qmix/circuit.py EmbeddingCircuit.set_freq, "
    "available_power, set_available_power"),
   ("unit tables", "qmix/exp/iv_data.py, qmix/exp/if_data.py")],
  ["normal return or exception"],
  "abstract interpretation with an arbitrary-string value",
  "A string equal to no literal of the program is propagated; it must have "
  "no path to a normal return. Documented names must have one.")

P("C09", "Invalid input is rejected before anything is changed",
  "Invalid input never yields a result: wrong numbers of tones, harmonics "
  "or bias points, reversed bias range, even smoothing windows, data that "
  "is no two-column (if_response: three-column) numeric array, unequal "
  "lengths, a circuit without gap voltage, resistance, frequency or "
  "impedance where it is needed, response-function voltages that do not "
  "start at zero or end too low, wrong numbers of Bessel limits, response "
  "matrices of the wrong size, unevenly spaced voltages for the Kramers-"
  "Kronig transform, unsorted data where duplicates are removed, "
  "interpolation or harmonic-balance errors above the limit. Each is "
  "rejected by an error, and the circuit or data that was passed in is not "
  "changed by the rejected call. Valid counterparts are accepted.",
  "every listed kind of invalid input, whatever the other arguments are",
  "Tests try one sample of some of the checks; the property is about all "
  "values and all paths to a return.",
  ALL, [("assertions and raises at the entry points", "all listed files")],
  ["exception or normal return; argument state after the error"],
  "abstract interpretation of each class of invalid input; guard "
  "dependence analysis",
  "Counts, types, shapes and missing values are described abstractly and "
  "no return path may remain; value conditions must be tested by a guard "
  "that depends on all quantities concerned (the inequality itself is not "
  "decided).")

P("C10", "Results have their documented form on every path",
  "Every public computation returns the documented form on every path: the "
  "cleaning functions two 1-D arrays or one 2-D array, importers "
  "(voltage, current[, DC data]) or (matrix[, correlation], DC data), "
  "qtcurrent a 1-D array for one frequency and a 2-D array for any list of "
  "frequencies (also of length one), harmonic balance exactly what its "
  "mode documents also when there is nothing to iterate, the I-V models "
  "and response functions arrays for arrays and numbers for numbers.",
  "every public computation, every argument kind and path",
  "Tests unpack the result of the common path only.",
  ["qmix/qtcurrent.py", "qmix/harmonic_balance.py", "qmix/respfn.py",
   "qmix/circuit.py", "qmix/exp/clean_data.py", "qmix/exp/iv_data.py",
   "qmix/exp/if_data.py", "qmix/exp/if_response.py",
   "qmix/mathfn/ivcurve_models.py", "qmix/mathfn/kktrans.py",
   "qmix/mathfn/misc.py", "qmix/mathfn/filters.py"],
  [("return statements", "all listed files")],
  ["type, rank and length of the result"],
  "interprocedural kind and rank analysis",
  "The abstract value joined over all return paths is compared with the "
  "documented form; kinds the analysis cannot see are not reported.")

P("C23", "Documented defaults are the defaults used",
  "A parameter that is not given takes the default its documentation "
  "states: for parameters with a default in the signature, for the data "
  "options listed in qmix.exp.parameters (whose table and every importer "
  "use the documented value), and for the keyword options of the response "
  "function classes.",
  "every documented parameter of every public callable, every importer and "
  "every response function class",
  "Tests pass most options explicitly or compare with tolerances wider than "
  "the effect of a default.",
  ALL + ["qmix/exp/parameters.py", "qmix/misc/terminal.py",
         "qmix/misc/progbar.py"],
  [("default table and its description", "qmix/exp/parameters.py"),
   ("default options of response functions", "qmix/respfn.py")],
  ["signatures, qmix.exp.parameters.params, results without options"],
  "constant propagation of defaults to every read, compared with the "
  "defaults parsed from the docstrings",
  "Docstring entries without a literal default are not compared.")

P("C24", "Figures are saved, closed and returned as documented",
  "Every plotting method honours its figure name and axis arguments: with "
  "a figure name it draws, saves that figure to exactly this name, closes "
  "it and returns None; without one it writes no file, closes nothing and "
  "returns the axis; a given axis is the one drawn on and no other figure "
  "is created. The methods that plot everything leave no figure open.",
  "every plotting method and function, with and without fig_name and ax, "
  "with IF data present",
  "Plotting code is excluded from coverage and never called by the tests.",
  ["qmix/exp/exp_data.py", "qmix/respfn.py", "qmix/exp/if_response.py"],
  [("fig_name / ax handling at the end of each plot method",
    "qmix/exp/exp_data.py, qmix/respfn.py")],
  ["files written, plt.get_fignums(), the returned value"],
  "typestate analysis of figures (open, saved, closed) over all paths",
  "Abstract figures with saved/closed states, strong updates, string "
  "templates for the file name.",
  over=("inputs", "configurations"))

P("C25", "Files are touched only where the caller says",
  "No call reads or writes a file or creates a folder, except under the "
  "path that the caller passed for it (file name, figure name, figure "
  "folder, data folder); a folder or file name given by the caller is "
  "never replaced, extended by prefixing or interpreted relative to another "
  "directory. No call starts a process (clearing the terminal for the "
  "introduction excepted), importing the package touches no files, and "
  "every file that is opened is closed before the call returns.",
  "every public callable, every path",
  "Tests use one writable folder and never look outside it.",
  ALL + ["qmix/misc/terminal.py", "qmix/misc/progbar.py"],
  [("circuit files", "qmix/circuit.py save_info, read_circuit"),
   ("figure folders", "qmix/exp/exp_data.py plot_all, initialize_dir")],
  ["file system after the call, open file handles"],
  "effect analysis of file operations with symbolic path templates and "
  "typestate of file handles",
  "Path strings are abstracted to templates of literals and parameters.")

P("C26", "Constructed objects are complete",
  "However an object was constructed (with or without IF data, analyses "
  "switched on or off, with or without smearing), every attribute its own "
  "methods, its text output and the summary plots read exists, and the "
  "methods that apply to every object of the class (printing, evaluating a "
  "response function and its derivatives, locking) do not fail because of "
  "the way it was constructed.",
  "all classes, all constructor configurations, all paths of the "
  "constructors",
  "Each test constructs one or two configurations and reads a few "
  "attributes.",
  ["qmix/exp/exp_data.py", "qmix/respfn.py", "qmix/circuit.py"],
  [("attributes of skipped analyses", "qmix/exp/exp_data.py"),
   ("interpolating functions", "qmix/respfn.py")],
  ["attributes of the object, calls of its methods"],
  "definite assignment of attributes over all constructor paths",
  "Definite-assignment analysis per configuration; methods analysed on the "
  "constructed abstract object.",
  over=("inputs", "configurations"))

P("C27", "Locking a circuit covers all its arrays and nothing else",
  "After lock() every array of an embedding circuit (frequencies, Thevenin "
  "voltages and impedances, bias voltage) is read-only and after unlock() "
  "every one is writeable, whatever their state before. Neither call "
  "changes or replaces an array, and the circuit's setters write into the "
  "existing arrays, so that they fail on a locked circuit.",
  "any circuit, any order of lock and unlock calls",
  "The tests lock one circuit and try to change some of its arrays.",
  ["qmix/circuit.py"],
  [("writeable flags", "qmix/circuit.py lock, unlock"),
   ("element assignment in the setters", "qmix/circuit.py set_*")],
  ["flags.writeable and identity of freq, vt, zt, vb"],
  "typestate analysis of array buffers (locked / writeable)",
  "Abstract buffers carry their writeable flag; strong updates.",
  over=("inputs", "histories"))

P("C11", "Circuit normalizations and unit conversions are exact",
  "An embedding circuit's quantities are normalized as documented: igap = "
  "vgap/rn, fgap = e*vgap/h (each of vgap and fgap gives the other when "
  "only one is known), the bias sweep has vb_npts evenly spaced points from "
  "vb_min to vb_max, and the arrays have one row per tone and one column "
  "per harmonic (plus the unused zeroth ones) and start at zero. "
  "available_power, set_available_power, set_freq and set_alpha follow "
  "their documented formulas for every unit name in any case: W, mW, uW, "
  "nW, pW, fW, dBm and dBW for power (P = |V_T|^2 / (8 Re Z_T) with both "
  "denormalized), Hz, MHz, GHz, THz, V, mV and norm for frequency; setting "
  "a power and reading it back in the same unit returns it. A setter "
  "changes the addressed tone and harmonic only. vph is freq*fgap*h/e/vgap, "
  "and initialize_vj returns zeros with one entry per tone, harmonic and "
  "bias point.",
  "any voltages, impedances, frequencies, powers, tone and harmonic "
  "numbers; every unit name in every case",
  "The tests use some units with round numbers; a wrong power of ten, "
  "factor or index in one branch of one unit is not sampled.",
  ["qmix/circuit.py"],
  [("unit tables", "qmix/circuit.py available_power, set_available_power, "
    "set_freq"), ("constructor relations", "qmix/circuit.py __init__")],
  ["return values and circuit arrays"],
  "value numbering: the symbolic result of each method against a "
  "specification analysed the same way",
  "The source is interpreted over symbolic terms (normal-form polynomials "
  "over atoms, array cells and brackets); the resulting terms are compared "
  "with those of a written-down formula. Terms that are not syntactically "
  "equal are compared by polynomial identity testing. Exact arithmetic; "
  "rounding is not modelled.")

P("C22", "I-V models and response functions follow their formulas",
  "The I-V curve models (perfect, perfect_kk, polynomial, exponential in "
  "both versions, expanded) compute their published formulas, the same for "
  "a number as for an array, and kk_trans is minus the imaginary part of "
  "the analytic signal of i - v, zero-padded n times and cut to the "
  "original length. A response function mirrors its curve about the origin "
  "(voltage and current odd), smears i - v with a Gaussian of v_smear over "
  "the voltage step, stores the Kramers-Kronig transform of the result in "
  "current_kk, and its classes start from the model they are named after, "
  "on a voltage grid from 0 to 35; RespFnFromIVData uses the data between "
  "zero and vlimit and continues it with slope one. idc and ikk are "
  "splines of the given order through points of (voltage, current) and "
  "(voltage_kk, current_kk), didc and dikk the derivatives of the same "
  "splines, and the response is ikk + j idc, its conjugate ikk - j idc, "
  "its swapped form idc + j ikk.",
  "any voltage, number or array, any model parameter, any I-V data, any "
  "smear, padding and spline order",
  "The tests compare some values of some models with a tolerance; a wrong "
  "term that is small at the sampled points, or a branch that only arrays "
  "or only numbers take, passes.",
  ["qmix/respfn.py", "qmix/mathfn/ivcurve_models.py",
   "qmix/mathfn/kktrans.py"],
  [("model formulas", "qmix/mathfn/ivcurve_models.py"),
   ("analytic signal", "qmix/mathfn/kktrans.py kk_trans"),
   ("mirroring, smearing, sampling", "qmix/respfn.py")],
  ["return values; voltage, current, voltage_kk, current_kk"],
  "value numbering: symbolic results against a specification analysed the "
  "same way",
  "As C11. SciPy's splines, Hilbert transform and convolution are "
  "uninterpreted functions: that they are called on the right data is "
  "decided, their numerical accuracy is not. The accuracy of the sampling "
  "is not decided either.")

P("C12", "The response table holds the response at every photon step",
  "interpolate_respfn returns, for 1 to 4 tones and separate summation "
  "limits per tone (an int means the same limit for every tone), an array "
  "with one axis of length 2*num_b+1 per tone and a last axis over the bias "
  "points, whose entry [k, l, ..] (negative indices counting from the end) "
  "is the response function at vb + k*f1 + l*f2 + .. for every k, l, .. "
  "within the limits and every bias point. Giving this table to qtcurrent "
  "as resp_matrix yields the same currents as leaving resp_matrix out.",
  "any bias sweep, frequencies and response function; the listed numbers of "
  "tones and limits",
  "The table is a few thousand numbers per call; a swapped axis, limit or "
  "sign for one tone of one tone count changes a part of them, and the "
  "tests' symmetric limits hide it.",
  ["qmix/qtcurrent.py", "qmix/respfn.py"],
  [("interpolation voltages", "qmix/qtcurrent.py interpolate_respfn, "
    "_interpolate_respfn_*"), ("resp_matrix", "qmix/qtcurrent.py qtcurrent")],
  ["returned table, currents"],
  "value numbering: every cell of the table against its definition",
  "As C11, with constant-bound loops unrolled: bias points, frequencies and "
  "the response function stay symbolic, the numbers of tones and the "
  "summation limits are the listed ones.")

P("C14", "The tunnelling current is the multi-tone spectral sum",
  "For 1 to 4 tones qtcurrent returns, for every requested frequency in the "
  "given order, the sum of the current components I(a, b, ..) of all "
  "combinations -num_p..num_p of the tones' harmonics whose frequency "
  "a*f1 + b*f2 + .. equals the requested one after rounding both to four "
  "decimals (zero if there is none). With C the phase factors, conj its "
  "complex conjugate and R the response table, the component is Im(S+) for "
  "a = b = .. = 0 and otherwise (Im S+ + Im S-) - j (Re S+ - Re S-), where "
  "S+- is the sum over all k, l, .. within the summation limits num_b of "
  "the tones of C1[k] conj(C1[k +- a]) C2[l] conj(C2[l +- b]) .. R[k, l, "
  "..], terms with an index beyond the limits left out. A list of "
  "frequencies gives a two-dimensional complex array; a single frequency "
  "gives the one-dimensional result, real for zero frequency. num_b may be "
  "an int or one limit per tone.",
  "any junction voltage, bias sweep, response table and (for up to three "
  "tones) any frequencies; the listed numbers of tones, harmonics and "
  "limits",
  "The four tone counts are separate implementations with up to eight "
  "nested loops; tests compare a few sums with references for symmetric "
  "settings, so a wrong sign, limit or index of one tone in one of them can "
  "hide behind terms that vanish there.",
  ["qmix/qtcurrent.py"],
  [("component sums", "qmix/qtcurrent.py _current_coeff_*"),
   ("matching of frequencies", "qmix/qtcurrent.py _current_*"),
   ("list or single frequency", "qmix/qtcurrent.py qtcurrent")],
  ["returned currents"],
  "value numbering: the symbolic current of every request against the "
  "written-down sum",
  "As C11, with constant-bound loops unrolled and Bessel functions "
  "evaluated when terms are compared. The currents are polynomials in "
  "Bessel functions of the drive levels, phases and table cells.")

P("C15", "Phase factors are the convolved Jacobi-Anger coefficients",
  "calculate_phase_factor_coeff returns an array with one row per tone "
  "(the unused zeroth row zero), an axis of length 2*max(num_b)+1 over the "
  "order k (negative orders counting from the end) and one over the bias "
  "points. For one harmonic the entry is J_k(alpha) exp(-j k phi) with "
  "alpha = |vj|/(p f), phi the phase of vj, zero beyond the tone's own "
  "limit; with more harmonics it is the sum over m of the coefficient of "
  "the lower harmonics at k - p m times that of harmonic p at m, both "
  "orders within the limits.",
  "any junction voltage and frequencies; the listed numbers of tones, "
  "harmonics and limits",
  "Tests check the sum rule and single-harmonic values; a wrong summation "
  "limit or order in the convolution of harmonics changes small "
  "coefficients only.",
  ["qmix/qtcurrent.py"],
  [("Jacobi-Anger coefficients", "qmix/qtcurrent.py "
    "calculate_phase_factor_coeff"),
   ("convolution", "qmix/qtcurrent.py _convolve_coefficients")],
  ["returned coefficients"],
  "value numbering: every coefficient against its definition",
  "As C14.")

P("C16", "Harmonic balance reports the convergence of what it returns",
  "In mode 'x' harmonic_balance returns the voltages, the number of "
  "corrections made and a flag that is True exactly if the largest relative "
  "error |vt - zt*I - vj| / |vj| of the returned voltages, over all signals "
  "and bias points, is at most stop_rerror; it stops at the first iterate "
  "for which that holds and makes at most max_it corrections. In mode 'm' "
  "the mask is True exactly at the bias points where the relative error of "
  "every signal of the returned voltages is below stop_rerror. If all "
  "embedding impedances are zero, the voltages are the sources at every "
  "bias point, with 0 iterations, flag True and a mask that is True "
  "everywhere.",
  "any circuit values, bias sweep, tunnelling current, tolerance, damping "
  "and initial guess; the listed numbers of signals (up to four) and "
  "iterations (up to two)",
  "Users decide by the flag and the mask whether the simulated voltages can "
  "be trusted; the tests look at circuits that converge.",
  ["qmix/harmonic_balance.py"],
  [("error, mask and stop condition", "qmix/harmonic_balance.py "
    "harmonic_balance"),
   ("modes", "qmix/harmonic_balance.py harmonic_balance (return)")],
  ["results of modes x and m"],
  "value numbering: the results of the unrolled loop against a specification "
  "analysed the same way",
  "As C14. qtcurrent and interpolate_respfn are replaced by an uninterpreted "
  "function of circuit, response, limits, frequency and junction voltage "
  "(C12, C14 decide them), the matrix inverse likewise. Loops are unrolled "
  "for the listed maximum numbers of iterations; whether the iteration "
  "converges is not decided.")

P("C17", "Harmonic balance is Newton's method on the circuit equations",
  "harmonic_balance starts from vj_initial or, without it, from "
  "vt*zj_guess/(zj_guess + zt), and corrects the voltages by vj - "
  "damp_coeff*J^-1*e, where the error e of each tone f and harmonic p is vt "
  "- zt*I - vj (|vt| below 1e-10 is replaced by 1e-10), I is the tunnelling "
  "current at p times the frequency of the tone, for the same circuit, "
  "response function and num_b, and J is the Jacobian of the real and "
  "imaginary errors with respect to the real and imaginary voltages, by "
  "forward differences with a step of 1e-3, computed anew for each "
  "correction. Rows of unused tones and harmonics (index zero) are zero. "
  "check_hb_error raises AssertionError exactly if the largest relative "
  "error |e|/|vj| of some signal is not below stop_rerror.",
  "any circuit values, bias sweep, tunnelling current, tolerance, damping "
  "and initial guess; the listed numbers of signals and iterations",
  "Newton's method forgives errors in the Jacobian by converging slower or "
  "to another point; tests with one or two signals that converge do not "
  "see them.",
  ["qmix/harmonic_balance.py"],
  [("error vector", "qmix/harmonic_balance.py harmonic_balance"),
   ("Jacobian", "qmix/harmonic_balance.py _inv_jacobian"),
   ("current of all signals", "qmix/harmonic_balance.py "
    "_qt_current_for_hb, _qtcurrent_all_freq"),
   ("check", "qmix/harmonic_balance.py check_hb_error")],
  ["returned voltages; AssertionError"],
  "value numbering: the voltages after the unrolled corrections against "
  "Newton's method written down",
  "As C16.")

P("C18", "Cleaning, smoothing and differentiating measured data",
  "remove_nans_* keep exactly the rows without NaN, in order; sort_* sort "
  "the rows by x (or the given column); remove_doubles_* keep exactly the "
  "first row of each run of equal x (or values of the given column), and "
  "with check=True raise AssertionError exactly if the data is not sorted by "
  "it; clean_* do the three in this order; xy_to_matrix and matrix_to_xy "
  "convert between two arrays and two columns. gauss_conv returns, for each "
  "point, the mean of the points up to int(ext_x*sigma) samples away with "
  "weights exp(-(k/sigma)^2/2), the data being mirrored at its end points; "
  "it raises AssertionError exactly if this window is longer than the data. "
  "slope is the centred difference quotient, one-sided at both ends. "
  "slope_span_n(n) is the difference quotient over n samples, "
  "(y[i+(n-1)/2] - y[i-(n+1)/2]) over the same difference of x, away from "
  "the ends, exact everywhere on straight lines; with nozeros=True zeros are "
  "replaced by 1e-10. All have as many points as the (cleaned) data.",
  "any data, with NaN, repeated and unsorted values; the listed values of "
  "sigma, ext_x, n and col",
  "All experimental data passes through these functions; a test sees a few "
  "short arrays, in which an off-by-one at an end or a lost row hides.",
  ["qmix/exp/clean_data.py", "qmix/mathfn/filters.py",
   "qmix/mathfn/misc.py"],
  [("cleaning", "qmix/exp/clean_data.py remove_nans_*, sort_*, "
    "remove_doubles_*, clean_*"),
   ("smoothing", "qmix/mathfn/filters.py gauss_conv, _gauss"),
   ("derivatives", "qmix/mathfn/misc.py slope, slope_span_n")],
  ["returned arrays, their lengths; AssertionError"],
  "value numbering: every element and the length of each result against the "
  "definition analysed the same way",
  "As C14. Masks and sorting orders are terms over the whole array. NumPy's "
  "argsort counts as a stable sort.")

P("C19", "Measured I-V curves become normalised curves as documented",
  "dciv_curve and iv_curve take volts and amperes from v_fmt and i_fmt, drop "
  "rows with NaN, keep a single pass of the sweep (everything if it runs "
  "from one end to the other; else the parts up to the first extreme and "
  "from the return through the starting voltage to the second extreme), sort "
  "by voltage, drop repeated voltages, apply v_multiplier and i_multiplier, "
  "subtract the given offsets (iv_curve: those of the DC data if not both "
  "are given), with filter_data apply the Savitzky-Golay filter to npts "
  "points of the curve, scaled by its largest values and rotated by "
  "-filter_theta, and with rseries subtract I*rseries from the voltage "
  "(points of zero current are dropped, at those with V/I < 0 the junction "
  "voltage is -I*rseries). They "
  "return the axis linspace(-vmax, vmax, npts)/vgap and the current "
  "interpolated there, divided by igap = vgap/rn; iv_curve uses vgap and igap "
  "of the DC data and gives zero outside the measured range. The DC metadata "
  "holds these axes and curves, vraw and iraw before the series resistance "
  "correction, vgap, igap, fgap = e*vgap/h, rn and vint (resistance and "
  "voltage intercept of the line fitted to vrn[0] < V < vrn[1]), rsg (line "
  "fitted within 0.1 mV of vrsg), offset and rseries.",
  "any measured data (unsorted, with NaN, in one or several passes) and "
  "option values; offsets and gap voltage given",
  "Errors of a few points or percent in processed experimental data look "
  "like physics; tests only compare a few values of one synthetic curve.",
  ["qmix/exp/iv_data.py", "qmix/exp/clean_data.py"],
  [("import", "qmix/exp/iv_data.py _load_iv, _take_one_pass"),
   ("filter", "qmix/exp/iv_data.py _filter_iv_data, _rotate"),
   ("analysis", "qmix/exp/iv_data.py dciv_curve, iv_curve, "
    "_find_normal_resistance, _find_subgap_resistance, "
    "_correct_series_resistance")],
  ["returned arrays and metadata"],
  "value numbering: axis, current and every metadata field against the "
  "procedure written down, as terms over the measured array",
  "As C14; terms that contain sorting, selection, interpolation or fits are "
  "compared by evaluating both terms (not the program) at sweeps of four "
  "kinds with random noise and NaN. Offsets and gap voltage that are not "
  "given: C33.")

P("C33", "Offsets and gap voltage are found by the stated procedure",
  "dciv_curve, if voffset and ioffset are not both given: where the data "
  "(times the multipliers) reaches beyond voffset_range (a pair, or a number "
  "r for -r to r) on both sides, the offsets are those scipy.optimize."
  "minimize finds for the sum of |I(V) + I(-V)| over linspace(low/2, high/2, "
  "101), I being the data inside the range (ends included) with the trial "
  "offsets subtracted, linearly interpolated; it starts from voffset (or 0) "
  "and ioffset (or the mean current inside the range). Otherwise a given "
  "offset is kept and a missing one is 0. Both are subtracted and returned. "
  "If vgap is not given, on the corrected curve: the derivative (slope) of the data above 2 mV is "
  "smoothed by gauss_conv with a width of 0.2 mV over the first voltage step "
  "of the curve; where it is largest a line is fitted to the data within "
  "0.01 mV; vgap is the voltage at which this line carries half the current "
  "of its crossing with the normal resistance line (fitted to vrn[0] < V < "
  "vrn[1]).",
  "any measured data, either order of the sweep, units and multipliers, none "
  "or one of the offsets given",
  "Every normalised quantity is scaled by the gap voltage and every curve "
  "shifted by the offsets; the tests accept either within percent on one "
  "synthetic curve.",
  ["qmix/exp/iv_data.py"],
  [("offset", "qmix/exp/iv_data.py _correct_offset, _find_offset"),
   ("gap voltage", "qmix/exp/iv_data.py _find_gap_voltage")],
  ["returned metadata (vgap, offset) and curves",
   "function and start handed to scipy.optimize.minimize"],
  "value numbering: gap voltage, curve, minimised function and its start "
  "against the procedure written down",
  "As C19, without filter or series resistance. The minimiser is an "
  "uninterpreted point; its function is analysed at one unknown pair of "
  "offsets.")

P("C20", "Hot/cold IF power becomes noise temperature and gain as documented",
  "dcif_data and if_data take volts from v_fmt, drop rows with NaN, sort by "
  "voltage, keep the first of repeated voltages, multiply the voltage by "
  "v_multiplier, subtract the voltage offset of the DC data and, with "
  "rseries, replace the voltage by the junction voltage I*(R - rseries), I "
  "and R >= 0 interpolated on the raw DC curve (points of zero current left "
  "out of R). Power is interpolated to linspace(0, vmax/vgap, ifdata_npts), "
  "zero outside the measured range, and with ifdata_sigma smoothed by a "
  "Gaussian (volts; points if above 0.5). A line is fitted to the power (for "
  "if_data: mean of hot and cold) where any range of vshot holds (above "
  "2*vgap if less than 5 points do); corr scales its slope to 5.8 K/mV, "
  "if_noise is its scaled value at vint, if_fit is 0 < if_noise < 50. A "
  "given dcif is used instead of the fit. if_data: powers are scaled by "
  "corr, loads have Callen-Welton temperatures at freq (GHz), y = hot/cold "
  "but at least 1 + 1e-10, tn = (Th - Tc*y)/(y - 1), gain = (hot - cold)/(Th "
  "- Tc); the best index is closest to vbest, else that of the largest gain "
  "or smallest tn (best_pt). if_response takes three rows or columns, y from "
  "dBm (1 + 1e-6 if not above 1), and replaces tn below 0 or above "
  "ifresp_maxtn by ifresp_maxtn.",
  "any measured data (unsorted, with NaN, repeated voltages), DC metadata and "
  "option values; vshot given",
  "Noise temperatures are what such measurements are made for; tests compare "
  "a few values of one synthetic data set within wide bounds.",
  ["qmix/exp/if_data.py", "qmix/exp/if_response.py"],
  [("import", "qmix/exp/if_data.py _load_if"),
   ("shot noise", "qmix/exp/if_data.py _find_if_noise"),
   ("Y-factor", "qmix/exp/if_data.py _find_tn_gain, _temp_cw"),
   ("spectrum", "qmix/exp/if_response.py if_response")],
  ["returned arrays, index and metadata"],
  "value numbering: arrays, best index and every metadata field against the "
  "procedure written down, as terms over the measured arrays and DC data",
  "As C19; ifdata_npts, vmax (and vgap where data is smoothed) have fixed "
  "values, lengths and contents of the data are free. The automatic search "
  "for the shot noise region (vshot=None) is not decided.")

P("C13", "Impedance recovery follows the documented procedure",
  "PumpedData with analyze_iv recovers the embedding circuit from the pumped "
  "curve on the first photon step, 1 - vph + vph*fit_range[0] <= v <= 1 - "
  "vph + vph*fit_range[1] (with fit_range=None: cut_low and 1 - cut_high). "
  "The drive level at each voltage starts from alpha_max*(i - idc(v)) / "
  "(pumped(alpha_max) - idc(v)), not below 0, and takes 15 steps, the first "
  "of alpha_max/4, each half the one before, towards the measured current "
  "(never below 0). Pumped DC and AC tunnelling currents are the sums of "
  "Tucker theory over -num_b..num_b with the DC data's response function; "
  "the junction impedance is alpha*vph over the AC current. err_surf holds "
  "the error of equation 26 of Withington et al. (divided by the number of "
  "points) at linspace(*remb_range, 101) x linspace(*xemb_range, 201); zt is "
  "where it is smallest, or zemb if given, vt the source voltage of equation "
  "27 at zt, fit_good whether the smallest error is <= 7e-7, alpha and zw "
  "the values at the voltage closest to 1 - vph/2.",
  "any DC and pumped curves, response functions, frequencies and values of "
  "the options (num_b = 1 and 2, thorough: 4 and 20)",
  "The tests check that one simulated circuit is recovered roughly; a wrong "
  "fit range, step, limit of the sum or weight still gives an impedance "
  "close to the true one.",
  ["qmix/exp/exp_data.py"],
  [("procedure", "qmix/exp/exp_data.py PumpedData._recover_zemb"),
   ("drive level", "qmix/exp/exp_data.py _find_alpha"),
   ("currents", "qmix/exp/exp_data.py _find_ac_current, "
    "_find_pumped_iv_curve"),
   ("error and voltage", "qmix/exp/exp_data.py _error_function, "
    "_find_source_voltage")],
  ["attributes zt, vt, fit_good, zw, alpha, err_surf"],
  "value numbering: each attribute against the procedure written down, as "
  "terms over the curves and the response function's tables",
  "As C19; loops over the error surface become closed forms, the surface is "
  "compared cell by cell for free row and column and then stands for itself "
  "in what is derived from its minimum. Curves have 21 and 51 points when "
  "terms are evaluated.")

P("C21", "Data objects hold the documented quantities",
  "DCData holds voltage, current, vgap, igap, fgap, rn, rsg, offset, vint as "
  "dciv_curve returned them, q = rsg/rn, rna = rn*area*1e-12, jc = vgap/rna, "
  "vleak, ileak (the current interpolated at vleak/vgap, times igap), "
  "response functions of voltage and current without smearing (resp) and "
  "with v_smear (resp_smear), and with IF data if_data, if_noise, corr, "
  "shot_slope and if_fit as dcif_data returned them, else None. PumpedData "
  "holds voltage and current of iv_curve, voltage_dc, current_dc, vgap, igap, "
  "fgap, rn, offset, vint of the DC data, freq, vph = freq*1e9/fgap, rdyn = "
  "slope_span_n(current, voltage, 21), and with hot and cold IF data (unless "
  "analyze_if=False) if_hot and if_cold (voltage, power), tn, gain, idx_best, "
  "the IF metadata returned by if_data, tn_best, gain_best and v_best at "
  "idx_best, g_db = 10*log10(gain_best), zj_if = rn/slope of the line fitted "
  "to the 10 points of the pumped curve from the one closest to v_best; else "
  "None. The importers get the data and the options as given; if_data gets "
  "the IF metadata of the DC data.",
  "any data, metadata and option values; with and without IF data",
  "The objects are what users read; tests look at a few attributes of one "
  "synthetic data set, mostly for existence.",
  ["qmix/exp/exp_data.py"],
  [("DC data", "qmix/exp/exp_data.py DCData.__init__"),
   ("pumped data", "qmix/exp/exp_data.py PumpedData.__init__")],
  ["attributes of the objects, arguments of the importers"],
  "value numbering: attributes as terms over what the importers return, and "
  "the importers' arguments, against the documented quantities",
  "As C14; importers, response functions and slope_span_n are replaced by "
  "functions that return free values and note their arguments.")

P("C28", "Plots show the objects' data in the units of their axes",
  "Plots show voltages in mV (voltage*vgap), currents in uA (current*igap) "
  "and the IF data of the object as it is: plot_dciv the DC curve, the "
  "current at the gap and at vleak, the line of normal resistance (V - "
  "vint)/rn and the line fitted within 0.2 mV of vleak; plot_offset the part "
  "within 0.2 mV; plot_if_noise the curve, that line, the IF data, the shot "
  "noise line and if_noise at vint; plot_iv, plot_ivif and plot_simulated the "
  "unpumped curve and the pumped one where its current is not zero, over 0 "
  "to vmax_plot and up to the unpumped current there; plot_if and plot_ivif "
  "hot and cold power (plot_ivif: where not zero), plot_if the DC IF data if "
  "there is any; plot_noise_temp (where hot power is not zero) and "
  "plot_yfac_noise_temp powers smoothed by gauss_conv over 5 points, or their "
  "ratio; these and plot_gain_noise_temp tn and gain with the values at "
  "idx_best, plot_gain the gain in percent. plot_simulated shows the current "
  "of the recovered circuit (vph, zt, vt) and the ends of the fit interval; "
  "plot_error_surface log10(err_surf) over resistance and reactance in ohms "
  "with zt*rn marked; response function plots the curves and (interpolation) "
  "idc and ikk. plot_overall_results shows all curves, zj_if, tn_best, g_db, "
  "alpha, zw*rn and zt*rn over freq, if_noise of good noise fits, and zt*rn "
  "and vt*vgap of good impedance fits.",
  "any data objects and plot ranges, with and without IF data; overall "
  "results of four measurements",
  "No plot function is tested: a wrong scale or the wrong curve in a figure "
  "is noticed by nobody.",
  ["qmix/exp/exp_data.py", "qmix/respfn.py"],
  [("measured data", "qmix/exp/exp_data.py DCData.plot_*, "
    "PumpedData.plot_*, plot_overall_results"),
   ("response functions", "qmix/respfn.py RespFn.plot, "
    "RespFn.plot_interpolation")],
  ["what is handed to the drawing methods of Matplotlib's axes"],
  "value numbering: each specified curve is among those handed to the "
  "drawing methods, as terms over the object's data",
  "Colours, texts, legends and annotations are not compared. Drawing methods "
  "that are not modelled make the plot undecided.")

P("C29", "The Kramers-Kronig transform is accurate",
  "The transform of an I-V curve is within a stated tolerance of the "
  "principal value integral.",
  "any curve sampled on any even grid", "One analytic curve is tested.",
  ["qmix/mathfn/kktrans.py"],
  [("transform", "qmix/mathfn/kktrans.py kk_trans, kk_trans_trapz")],
  ["returned curve"], "", "")

P("C30", "Harmonic balance converges for physical circuits",
  "For passive embedding circuits harmonic balance reaches the tolerance "
  "within max_it corrections.",
  "any passive circuit and response function",
  "A handful of circuits is tested.", ["qmix/harmonic_balance.py"],
  [("iteration", "qmix/harmonic_balance.py harmonic_balance")],
  ["returned flags"], "", "")

P("C31", "Default summation limits are accurate",
  "With the default num_b the tunnelling current differs from the infinite "
  "sum by less than a stated tolerance.",
  "any junction voltages in the documented range",
  "Single voltages are tested.", ["qmix/qtcurrent.py"],
  [("limits", "qmix/qtcurrent.py qtcurrent")], ["returned current"], "", "")

P("C32", "Automatic offsets and gap voltages are close to the true ones",
  "The offset, gap voltage and shot noise region found automatically are "
  "within a stated tolerance of those of the junction.",
  "any measured curve with bounded noise", "One synthetic curve is tested.",
  ["qmix/exp/iv_data.py", "qmix/exp/if_data.py"],
  [("searches", "qmix/exp/iv_data.py _correct_offset, _find_gap_voltage; "
    "qmix/exp/if_data.py _find_if_noise")], ["returned metadata"], "", "")
