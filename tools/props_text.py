RUN = "hydraulic/wave_runup/"
OV = "hydraulic/wave_overtopping/"
TR = "hydraulic/wave_transmission/"
RA = "structural/stability_rock_armour/"
CA = "structural/stability_concrete_armour/"
RR = "structural/stability_rock_rear/"
TB = "structural/stability_toe_berm/"
FC = "structural/forces_caisson/"
FW = "structural/forces_crestwall/"

conform("F01", "Core physics functions return the documented quantities",
        """For every input, each function of the core physics module (steepness, breaker parameter and its critical
        value, wavelengths in deep and local water, relative density, stability number, nominal diameter and unit mass,
        breaker classification) returns exactly the quantity its formula defines, with the documented defaults
        (gravity, densities) used only where the caller supplies no value.""",
        ["core_physics.py"], ["closed-form expressions @ functions/core_physics.py"])
conform("F02", "Overtopping functions compute the published formulas",
        """For every combination of supplied inputs, each public overtopping function (TAW 2002, EurOtop 2007, EurOtop
        2018, Van Gent 2002 velocity and layer thickness, Van Gent 2021, Van Gent et al. 2025, De Ridder et al. 2024
        and 2026) returns the value the published formula prescribes in every branch: breaking and maximum discharge,
        all influence factors, crest levels and default coefficients, including which branch (breaking or not, swell,
        berm, oblique, best fit or design value) applies. Inputs given explicitly override the values that would
        otherwise be calculated, and a missing required input raises an error.""",
        [OV + f for f in ("taw2002.py", "eurotop2007.py", "eurotop2018.py", "vangent2002_velocity.py",
                          "vangent2021_caisson.py", "vangent2025.py", "deridder2024.py", "deridder2026.py")],
        ["overtopping formulas and influence factors @ functions/hydraulic/wave_overtopping"])
conform("F03", "Run-up functions compute the published formulas",
        """For every combination of supplied inputs, each public run-up function (TAW 2002, EurOtop 2018, Van Gent
        2001) returns the value of its published formula in every branch: the run-up level and its upper limit, the
        berm, roughness and obliqueness factors, the iterated average slope, and default coefficients. Influence
        factors or slopes supplied by the caller replace the calculated ones, and a missing required input raises an
        error.""",
        [RUN + f for f in ("taw2002.py", "eurotop2018.py", "vangent2001.py")],
        ["run-up formulas, gamma factors, slope iteration @ functions/hydraulic/wave_runup"])
conform("F04", "Wave transmission functions compute the published formulas",
        """For every input, each public wave transmission function (d'Angremond 1996, Briganti 2003, Goda 1967 caisson,
        Van Gent 2023, Van Gent 2024 set-up) returns the transmission coefficient or set-up its published formula
        prescribes, including the permeable/impermeable choice, the crest-width regimes, the lower and upper bounds on
        Kt and the default coefficients.""",
        [TR + f for f in ("dangremond1996.py", "briganti2003.py", "goda1967_caisson.py", "vangent2023.py",
                          "vangent2024_setup.py")],
        ["transmission formulas @ functions/hydraulic/wave_transmission"])
conform("F05", "Rock armour stability functions compute the published formulas",
        """For every input, each public rock armour function (Hudson 1959, Van der Meer 1988 and modified, Van der Meer
        2021, Etemad-Shahidi 2020, Jumelet 2024, Kramer & Burcharth 2004, Scaravaglione 2025) returns the diameter,
        damage, wave height, freeboard or critical value its published formula prescribes, choosing the plunging or
        surging (shallow or deep) branch as published and using the documented default coefficients.""",
        [RA + f for f in ("hudson1959.py", "vandermeer1988.py", "vandermeer1988_modified.py", "vandermeer2021.py",
                          "etemadshahidi2020.py", "jumelet2024.py", "kramerburcharth2004_lowcrested.py",
                          "scaravaglione2025.py")],
        ["stability formulas @ functions/structural/stability_rock_armour"])
conform("F06", "Concrete armour functions compute the published formulas",
        """For every input, each public concrete armour function (Hudson for Accropode, Accropode II, Core-Loc, cubes,
        Cubipod, Tetrapod; Van der Meer 1988 and Van Gent 2002 cubes; Xbloc and XblocPlus) returns the diameter, mass,
        volume, wave height or correction factor its published formula or table prescribes, with the documented
        default coefficients and thresholds.""",
        [CA + f for f in ("accropode_hudson1959.py", "accropode2_hudson1959.py", "core_loc_hudson1959.py",
                          "cubes_double_layer_hudson1959.py", "cubes_double_layer_vandermeer1988.py",
                          "cubes_single_layer_vangent2002.py", "cubipod_hudson1959.py", "tetrapod_hudson1959.py",
                          "xbloc.py", "xblocplus.py")],
        ["stability formulas and correction factors @ functions/structural/stability_concrete_armour"])
conform("F07", "Toe and rear-side stability functions compute the published formulas",
        """For every input, each public toe berm function (Gerding 1993, Van der Meer 1998, Van Gent & Van der Werf 2014, Etemad-Shahidi 2021,
        Takahashi 1990 stability number) and rear-side function (Van Gent & Pozueta 2004, Van Gent 2007) returns the
        diameter, damage, wave height, toe level or slope its published formula prescribes, with the documented default
        coefficients.""",
        [TB + f for f in ("gerding1993.py", "vandermeer1998.py", "vangentvanderwerf2014.py", "etemadshahidi2021.py", "takahashi1990_caisson.py")]
        + [RR + f for f in ("vangentpozueta2004.py", "vangent2007.py")],
        ["stability formulas @ functions/structural/stability_toe_berm and stability_rock_rear"])
conform("F08", "Caisson and crest wall forces follow the published formulas",
        """For every input, the Goda caisson functions (design wave pressures, buoyancy, horizontal and uplift forces,
        overturning moments, bearing pressures, safety factors and impulsive-breaking conditions) and the Van Gent &
        Van der Werf 2019 crest wall functions return the values their published formulas prescribe, including the
        low-crest, emerged-wall, mound-slope and obliqueness cases and default coefficients.""",
        [FC + "goda1985.py", FW + "vangentvanderwerf2019.py"],
        ["pressure and force formulas @ functions/structural/forces_caisson and forces_crestwall"])

CK = "core_utility.py"
ALLF = ["core_physics.py", "core_utility.py", "hydraulic", "structural"]
prop("C04", "Calculations warn exactly when an input leaves its documented range",
     """For every call shape and every input, a calculation function of the toolbox checks exactly the quantities its
     formula's validity range names, with the documented lower and upper bounds, the right checked quantity and the right
     name: a result computed with every quantity inside its range comes without a warning, and a result computed with a
     quantity outside its range comes with a warning that names that quantity. No input the caller supplied is left out
     of the checks.""",
     ["inputs", "configurations"], "for all inputs and every combination of supplied optional arguments",
     """Tests call each function with one warning pattern; a dropped, mislabelled or shifted range check changes no
     returned number, and shows only for inputs inside the narrow band it concerns.""",
     [OV, RUN, TR, RA, CA, RR, TB, FC, FW],
     ["calls of the module's check_validity_range @ every calculate_* function",
      "check_variable_validity_range call sites @ functions/**"],
     "interprocedural event dataflow: guarded check events per call site, compared with the reference's by normal form",
     """Each calculate_* function is interpreted per set of supplied inputs; every reached call of the range primitive
     is an event (path condition, quantity, bounds, label). Warn conditions are proved equal to the reference's per label.
     A violation names the call site, or the label that is missing, and is confirmed by an assignment of inputs.
     Events inside loops and calls that raise are outside the comparison.""")
prop("C05", "The range primitive warns for exactly the elements outside the range",
     """For every scalar of any numeric type, list and array and for all bounds, the validity-range primitive issues a
     warning naming variable and formula exactly for the elements strictly below the minimum or above the maximum
     (values on a bound are inside), warns for every such element, returns a verdict for each element, and neither
     alters its input nor suppresses or replaces warnings.""",
     ["inputs", "programs"], "for all values, element counts 1 and 3, all bounds, all numeric scalar types and containers",
     """Every warning in the toolbox passes through this function; tests try a handful of floats, not integers, numpy
     scalars, boundary values or arrays with several offenders.""",
     [CK], ["check_variable_validity_range @ functions/core_utility.py"],
     "abstract interpretation of the primitive per argument kind; warning events compared with the stated condition",
     """The function is interpreted for each argument kind with symbolic elements; the union of warning conditions and the
     returned verdicts are compared with the stated condition. Element counts beyond 3 rest on the loop being uniform.""")
prop("C06", "Stand-alone range checks test the documented quantities and bounds",
     """For every subset of supplied quantities, each public check function (check_validity_range, check_validity and
     variants) checks exactly those documented quantities that can be formed from the supplied inputs, each with its
     documented bounds and name: supplying more inputs never drops a check, and quantities that need an input that was
     not supplied are not checked.""",
     ["inputs", "configurations"], "for all inputs and every subset of up to three supplied or up to two omitted inputs, "
     "and all subsets where there are at most five inputs",
     """Users call these functions with arbitrary subsets of inputs; tests use one full set. A guard on the wrong input
     silently disables a check for callers who supply only some of them.""",
     [OV, RUN, TR, RA, RR, TB, FC, FW],
     ["check_validity_range and variants @ each formula module"],
     "interprocedural event dataflow: guarded check events per supplied subset, compared with the reference's by normal form",
     """As C04, on the check functions themselves and their subsets of inputs.""")
prop("C07", "Calculations have no side effects on arguments, globals or the outside",
     """No public calculation or check function writes into an array or list its caller passed in, changes module-level
     state or keeps state between calls, or touches files, standard streams, the random generator, clock, environment,
     process or global numpy and warning settings; its result depends on its arguments alone. Only the two input-file
     writers write, and only the file they are asked to write.""",
     ["programs", "histories"], "for every function, every aliasing of arguments and every sequence of calls",
     """In-place writes and hidden state show only when an argument array is used again or calls come in a particular
     order; tests compare returned numbers of single calls.""",
     ALLF, ["array stores, augmented assignments, global statements, external calls @ functions/**"],
     "flow-sensitive may-alias and effect dataflow with interprocedural summaries",
     """Every function definition is analysed once: alias sets of locals, in-place stores and mutating calls, module
     state writes, mutable defaults, decorators, external calls. Unknown external calls are listed, not reported.""")
prop("C19", "Public functions keep their names, parameters, defaults and import paths",
     """Every public function of the toolbox can be imported by its documented path (module, sub-package and package
     level), accepts its documented arguments by keyword and by position in the documented order, requires no argument it
     did not require before, and uses the documented default for each argument that is left out.""",
     ["programs"], "for every caller program written against the documented interface",
     """Tests call functions in one style each, so a swapped parameter order, a changed default of an argument they always
     pass or a dropped re-export passes them.""",
     ALLF, ["function signatures and __init__ exports @ functions/**"],
     "resolution of import paths and signatures from the ast, compared with the recorded interface",
     """255 public functions; names, positions, defaults, keyword acceptance, and re-exports through __init__ files are
     resolved statically and compared with csa/ref/public.json. Added optional parameters at the end are accepted.""")
prop("C09", "Iterative solvers stop, honour their limits and iterate until all converge",
     """Every iterative calculation of the toolbox stops for every input after a number of passes bounded by its iteration
     limit, honours the caller's max_iter and tolerance arguments (and passes them on to the solvers it calls), makes at
     least one pass, and while passes are left goes on as long as any element of an array call still changes by more than
     the tolerance, also when another element is NaN. No function calls itself endlessly.""",
     ["inputs", "histories"], "for all inputs, iteration limits, tolerances and array lengths",
     """Tests iterate from a few benign points that converge in a few passes; a lost increment, an ignored limit or a stop
     test that looks at one element shows only for inputs that converge slowly or not at all.""",
     [OV, RUN, RA, TB, CA], ["while loops over the iterated slope or wave height @ wave_runup, wave_overtopping, structural"],
     "loop summaries from the value-graph dataflow; ranking-function argument and stop-condition rule per loop",
     """Each loop reached from a public function is summarised (continuation test, state before and after a symbolic pass);
     the rule asks for a counter whose gap to the limit shrinks by a constant, for the tests on limit and tolerance in the
     caller's variables, and for a stop test that is element-wise complete. That iterations converge is not claimed.""")
prop("C10", "No documented call shape dies of an internal programming error",
     """Whatever combination of optional arguments a caller supplies, a public function either returns a result or refuses
     with a ValueError: it never fails because a local variable has no value on some path, because one toolbox function
     calls another with arguments that do not fit its signature, because a name, attribute or key does not exist, or because
     of a division by a literal zero.""",
     ["inputs", "configurations"], "for every combination of supplied optional arguments and all branch outcomes",
     """There are thousands of combinations of optional arguments and branches; tests exercise a few per function, and an
     unbound variable or a misnamed keyword on another path stays unseen until a user takes it.""",
     ALLF, ["all calls between toolbox functions, all local variables @ functions/**"],
     "definite-assignment and call-binding dataflow along gated paths, interprocedural, per call shape",
     """Every public function is interpreted for up to 400 call shapes; each unbound use, misfit call, undefined name and
     raise is an event with its path condition; it is reported if an assignment of inputs satisfies the condition.
     None-valued arithmetic on purpose-supplied None and library-internal errors are outside.""")
prop("C18", "Array calls return the element-by-element results or refuse",
     """A public function called with arrays for one or for all of its numeric inputs (the others scalar) either raises an
     error or returns, for every element, exactly the value the scalar call returns for that element's inputs: branches,
     limits, masks and minima are taken element by element and no element's result depends on another element. Array calls
     that are accepted stay accepted.""",
     ["inputs"], "for all element values, arrays in all inputs at once and in each single input, array length 2 and more",
     """Tests use scalars mostly, or arrays whose elements all fall in the same branch; a scalar-minded branch, a reduction
     over the array or a mask with the wrong element shows only for mixed arrays.""",
     ALLF, ["np.where, boolean masks, np.minimum/maximum, loops over elements @ functions/**"],
     "abstract interpretation in an element-wise array domain; reductions stay explicit and are expanded for two elements",
     """Each function is interpreted with array-valued symbols; branching on an array is an event (the call fails loudly),
     reductions over elements are kept as nodes. A result containing a reduction is expanded for two different elements
     and compared with the scalar term. Iteration loops are compared pass by pass. Baseline of accepted array calls:
     csa/ref/arrays.json.""")
prop("C01", "Functions that solve one relation for different quantities undo each other",
     """Where a module solves the same relation for several quantities (unit mass and wave height, damage and diameter and wave
     height, discharge and crest freeboard, toe damage and depth, nominal diameter and mass), the functions are inverses: a
     quantity computed with one function and put into another, all other inputs (optional ones included) equal, gives back the original value, in every
     branch in which a solution exists, up to the rounding of published coefficients (2 to 3 percent where the published
     inverse has a rounded coefficient) and the tolerance of iterative solutions.""",
     ["inputs"], "for all physically possible inputs, 37 relations, every ordered pair of solved quantities",
     """Tests compare each direction with its own expected numbers at a few points; they rarely compose the two, and branch
     choices of the two directions can disagree in a small region only.""",
     [OV, RA, CA, RR, TB, "core_physics.py"], ["inverse function pairs @ functions/**"],
     "value-graph composition: the term of one function substituted into the other, reduced to the identity by normal form",
     """Both functions are interpreted to terms, composed, and the composition is proved to be the input or refuted by an
     assignment. For iterative solvers a fixed point of the step term that yields the input is exhibited; convergence to it
     is checked by evaluating the term's iteration. Without influence of wind (Van Gent 2025), waves steeper than breaking,
     Rc/Dn50 beyond the fitted branch (Kramer), and jumps of piecewise formulas excluded.""")
prop("C02", "Dimensional and dimensionless variants agree",
     """For every input and every combination of supplied optional inputs, a dimensional function returns its dimensionless
     variant's value times the documented scale: discharge by the root of g times the wave height cubed, crest freeboard,
     run-up level and wave set-up by the wave height, with the same accompanying flag, and both accept or refuse the same
     calls.""",
     ["inputs", "configurations"], "for all inputs, 25 pairs of functions, up to 160 call shapes per pair",
     """The variants are separate functions with long argument lists that pass inputs on by name; tests compare them, if at
     all, in one call shape. A dropped or mixed-up argument in another shape changes one variant only.""",
     [OV, RUN, TR], ["calculate_dimensionless_* and their dimensional callers @ functions/hydraulic/**"],
     "value-graph dataflow of both functions per call shape; equality of the scaled terms by normal form",
     """Both variants are interpreted per set of supplied inputs, numbers symbolic; the scaled terms are proved equal or
     refuted by an assignment. No reference formulas are involved.""")
prop("C20", "Equivalent ways to describe the same situation give the same result",
     """The result does not depend on which of two equivalent descriptions the caller uses: a nominal diameter or the mass
     with the density; an angle of incidence or the influence factor computed from it, and a positive or the negative angle; one
     slope or that slope for both parts; a friction, berm or wall factor or the inputs it is computed from, in the function or in its module's factor function; mass or volume
     times density; a slope as percentage or cotangent; a general function with the special function's coefficients; crest
     wall forces from waves or from their run-up level, and oblique forces at normal incidence or perpendicular forces.""",
     ["inputs", "configurations"], "for all inputs and every listed pair of equivalent calls",
     """Each description takes its own path through the code (defaults, conversions, guards); tests use one description per
     function.""",
     ALLF, ["optional alternative inputs @ functions/**"],
     "value-graph dataflow of both calls; equality of the terms by normal form",
     """About 500 pairs of calls of the analysed program are interpreted with symbolic inputs and their terms compared; equal
     terms are proved by normal form, differing ones reported with an assignment; rest listed as undecided.""")
prop("C03", "Froude similarity: results scale with the model as their dimension says",
     """For every input, every function is dimensionally consistent: with all lengths multiplied by a factor, periods by its root,
     masses by its cube (densities, angles, slopes, counts and g unchanged), each result is multiplied by the power of that
     factor that belongs to its dimension, dimensionless results are unchanged, and so are the inputs' verdicts on ranges of dimensionless
     quantities. No formula depends on a hidden absolute length, time or density.""",
     ["inputs", "configurations"], "for all inputs and scale factors, every public function and up to 40 call shapes each",
     """Holds for a continuum of scales. Tests use values of one scale, where a wrong power, a length compared with a number or
     a forgotten division is a change of a constant and can stay within tolerance.""",
     ALLF, ["public calculate_* functions @ functions/**"],
     "dimensional inference (unit types) over the value-graph terms of each function and call shape",
     """Each input has the dimension its name and documentation give; dimensions are propagated through all terms, including
     conditions, and every sum, comparison and transcendental function must be consistent and the result of the declared
     dimension. Where inference fails the claim is refuted only by an assignment whose scaled twin gives another value.""")
prop("C08", "Every supplied input takes effect: nothing a caller passes is dropped",
     """Whatever optional inputs a caller supplies, each value passed to a public calculate function influences its result for
     some values of the other inputs (or, for inputs that serve only a validity range, the check on that range). An input may be without
     effect only where the documentation gives another supplied input priority (an influence factor given explicitly, a diameter instead of
     a mass, a composite slope instead of a single one). No default, literal or other variable silently takes its place on the
     way through the called functions, and a coefficient or g passed by the caller is the one used.""",
     ["inputs", "configurations"], "for all combinations of supplied optional arguments of every public function, every argument",
     """A dropped argument leaves default calls, which tests use, untouched; each of thousands of argument combinations would
     need a test that varies each argument.""",
     ALLF, ["argument passing between public functions @ functions/**"],
     "information-flow (dependence) analysis on the gated value-graph terms, interprocedural, per call shape and argument",
     """For each call shape and argument the symbol must occur in the result term (or in a range check on the listed range-only
     inputs); an occurrence that cancels is recognised by normal form and by two values of the argument giving different
     values of the term. Absent occurrence is a violation unless the priority table allows it. Two known findings.""")
prop("C11", "Coefficients and results stay within their physical bounds",
     """For all physical inputs: transmission coefficients stay within the limits of their formula (0.075-0.8 for d'Angremond,
     0.05-0.93 for Briganti, 0-1 for Goda caisson and Van Gent 2023); influence factors for oblique waves, berms and crest walls stay
     within (0, 1] and never below their published minimum (Van Gent 2025's berm and crest-wall factors excepted, which that formula
     does not bound); Hudson KD values for Accropode, Accropode II and Core-loc between their
     published extremes; Xbloc correction factors between 1 and 2; and overtopping discharges, run-up heights, unit masses,
     volumes, diameters, wave heights, damage numbers, wavelengths, steepness and set-up are never negative (except formulas that turn
     negative outside their range: Van Gent 2025 overtopping, rear-side and Gerding toe stability, Scaravaglione 2025, and the run-up
     of TAW and EurOtop).""",
     ["inputs", "configurations"], "for all positive physical inputs and |angle| up to 90 degrees, up to 60 call shapes each",
     """Limits act at extreme inputs, where a minimum taken for a maximum or a lost cap shows; tests sit in the middle of the
     range.""",
     ALLF, ["np.minimum, np.maximum, clamps and squares @ functions/**"],
     "interval abstract interpretation of the value-graph terms",
     """The interval of each result term over the whole input domain must lie within the stated bounds; where the analysis is too coarse the
     call shape is undecided unless an input assignment puts the term outside, which is the violation.""")
prop("C12", "Results respond to the inputs in the physically required direction",
     """All else equal: overtopping discharge never grows with the crest freeboard and the required freeboard never with the admissible
     discharge; run-up never falls with wave height, period or berm factor and never grows with a gentler slope; transmission never
     grows with freeboard or crest width (Goda caisson: freeboard excepted, Briganti: width excepted) nor falls with the
     period; required armour mass, volume and diameter never fall with wave height or water density and never grow with armour density, KD or
     admissible damage; the admissible wave height never falls with armour size, density, KD or damage and damage never falls with wave
     height nor grows with armour size; crest wall forces never fall with wave height, period or wall height. (Exempt where the published
     formula jumps or leaves its range: run-up of waves steeper than 0.1, oblique wall forces that are negative, Van Gent 2025 freeboard, Van Gent 2007 and VanGentPozueta rear side, Kramer-Burcharth size, Van der Meer 1988, Jumelet
     wave height, Etemad-Shahidi 2020, composite slopes.)""",
     ["inputs"], "for all positive physical inputs, every pair of values of the varied input, up to 24 call shapes each",
     """A trend is a relation between two runs, at every point of a many-dimensional domain; example tests compare single
     outputs with stored numbers.""",
     ALLF, ["formulas of the public calculate functions @ functions/**"],
     "monotonicity analysis (sign of dependence, composed over the value-graph terms with interval side conditions)",
     """Each trend is proved by composing directions of dependence through products, powers, minima, maxima and gated choices;
     otherwise it is undecided unless two assignments that differ in one input refute it.""")
prop("C16", "A call that lacks needed inputs is refused, never answered with NaN",
     """For every combination of supplied and omitted optional inputs, a public calculate function either returns a value that does not
     depend on an omitted input, or raises an error that says what is missing: it never lets the NaN that stands for 'not
     given' flow into the result of an accepted call, and never treats an omitted input as a number or a comparison outcome.""",
     ["inputs", "configurations"], "for all combinations of omitted optional arguments and all values of the supplied ones",
     """Omissions multiply to thousands of combinations; a NaN result of one of them raises no exception and no test asks for
     it.""",
     ALLF, ["NaN defaults and guards np.isnan(...) @ functions/**"],
     "definedness (NaN-taint) dataflow on the value-graph terms per call shape",
     """The omitted inputs are the NaN constant in the terms; after resolving the guards, a result term with a NaN leaf under a
     satisfiable path condition that does not raise is the violation, with the assignment that reaches it.""")
prop("C17", "Prediction-tool input files carry exactly the caller's values",
     """The writers of the NN-Overtopping and XGB-Overtopping input files, for every combination of scalar and array inputs and
     every file name: create the file at the requested path with the tool's extension, with the columns the tool expects in
     the tool's order and names, the tool's separator, header and index, comment records before the data in the order of the columns,
     each column holding the values of its own input unchanged (scalars repeated for each row), the
     documented default file name where none is given, and no other data.""",
     ["inputs", "configurations"], "for all values, all scalar/array choices (each input alone and all together), all file names",
     """Two columns exchanged or a default applied to a supplied input give a well-formed file, and the external tool a plausible
     number; tests compare one stored file at most.""",
     ["hydraulic/wave_overtopping/vangent2007.py", "hydraulic/wave_overtopping/denbieman2021.py"],
     ["write_input_file_NN_Overtopping @ wave_overtopping/vangent2007.py", "write_input_file_XGB_Overtopping @ wave_overtopping/denbieman2021.py"],
     "effect analysis: the ordered file effects (open, write, to_csv) of the interpreted writer with their value terms",
     """Paths, records, column terms and table options are read off the effects and compared with the tool's format, for each input as scalar
     or array. Unknown ways of writing are undecided, not violations. What pandas does with a table is trusted.""")
na("N01", "Iterative solvers converge to the root of their formula",
   """Every iterative solution (average slope of run-up and overtopping, wave height of Etemad-Shahidi and De Ridder, Van der Meer
   1998 toe level, crest freeboard) converges within its iteration limit for all inputs in the validity range, to the solution of the
   implicit formula within the tolerance.""",
   ["inputs"], "for all inputs within the published validity ranges",
   """Convergence depends on contraction over the whole input domain.""",
   [OV, RUN, RA], ["while loops @ wave_runup, wave_overtopping, structural"],
   """Convergence needs a contraction bound on iterated real functions over the input domain; no static argument in reach bounds it, and
   sampling runs would be testing. C09 decides termination, limits and stop tests of the same loops instead.""")
na("N02", "Floating-point results are accurate to the formula's real value",
   """For all inputs in range the computed double precision result equals the real-valued formula to a relative error of 1e-9.""",
   ["inputs"], "for all inputs within range", "Rounding and cancellation depend on the values.",
   ["core_physics.py"], ["floating-point arithmetic @ functions/**"],
   """All checks work in real arithmetic; a sound rounding-error analysis of iterated, piecewise formulas with transcendental functions needs a tool
   that is not available here for Python.""")
na("N03", "Local wavelengths solve the dispersion relation for every depth",
   """The local wavelength satisfies the linear dispersion relation to the solver's accuracy for all depths and periods.""",
   ["inputs"], "for all periods and depths", "Depends on a third-party solver's approximation.",
   ["core_physics.py"], ["calculate_local_wavelength @ functions/core_physics.py"],
   """The value is produced by a numerical solver in a third-party library; its accuracy is a numerical fact about that library. F01 and C18 decide
   that the right arguments reach it and that it is applied element by element.""")
prop("C13", "Advisory warnings are given exactly in the documented situations",
     """Besides the range warnings, a calculation warns exactly when: a TAW 2002 overtopping calculation (discharge or
     freeboard) is given a non-zero sigma without the best-fit coefficients; a rock size is derived from a mass while the
     density was left out, so the default density is assumed; the rear-side wave height iteration stops at its iteration
     limit; or the wave height search for the caisson toe is not accurate to 1 mm. No other call warns, and none of these
     warnings has a category that Python hides by default.""",
     ["inputs", "configurations"], "for all inputs and every combination of supplied optional arguments",
     """The situations are combinations of omitted arguments and of rarely reached iteration limits; the tests never look
     for these warnings.""",
     [OV + "taw2002.py", "core_physics.py", RA + "etemadshahidi2020.py", RR + "vangent2007.py", RR + "vangentpozueta2004.py",
      TB + "takahashi1990_caisson.py"],
     ["check_usage_Dn50_or_M50 @ functions/core_physics.py", "sigma handling @ functions/hydraulic/wave_overtopping/taw2002.py",
      "iteration limit @ functions/structural/stability_rock_rear"],
     "interprocedural event dataflow: path condition of every reached warnings.warn compared with the stated condition",
     """Every public function is interpreted per set of supplied inputs; the disjunction of the path conditions of its
     warning events is proved equal to the stated condition (for iteration limits: to the negated limit clause of the loop).
     Calls that raise are outside the comparison.""")
