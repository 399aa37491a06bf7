#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D, G, C, F = "src/detail.rs", "src/gerg2008.rs", "src/composition.rs", "src/ffi.rs"

prop("C01", "Composition check classifies every composition by its true total",
 "The total of a composition counts each of its 21 components exactly once. Checking a composition succeeds exactly when that total is within 0.01 of one, reports an empty composition exactly when the total is zero to within 1e-10, and reports a bad sum for every other total, including totals that are not a number or not finite.",
 ["inputs"], "every value (finite, infinite, NaN) of the 21 components",
 "The tests check five hand-picked compositions with at most three components; a component left out of the total, a moved threshold or an accepted NaN total is invisible to them.",
 [C], [("Composition::sum", C), ("Composition::check", C)], ["return value of sum() and check()"])
prop("C02", "Normalizing keeps proportions and yields total one, or changes nothing",
 "When normalizing a composition succeeds, every one of the 21 components equals its previous value divided by the previous total, so the new total is one and all proportions are kept. It succeeds for every composition whose total is an ordinary positive number, fails for a zero, negative, not-a-number or infinite total, and a failed call leaves every component as it was.",
 ["inputs"], "every value of the 21 components, including zero, tiny, huge, infinite and NaN totals",
 "The tests normalize two compositions of two hydrocarbons; the other 19 components and the extreme totals are never exercised.",
 [C], [("Composition::normalize", C)], ["return value of normalize() and the 21 public fields afterwards"])
prop("C03", "Setting a composition is all-or-nothing and lands in the right slots",
 "Setting a composition on either model reports exactly the verdict that checking that composition gives. When it is accepted, each of the 21 components ends up in the public mole-fraction array at the position documented for it (methane first, argon last; one-based in GERG with position 0 equal to zero); when it is rejected, nothing in the model changes.",
 ["inputs", "histories"], "every composition, set on a fresh model and on one that already holds another composition",
 "One accepted composition is used throughout and only aggregate results are compared; rejection is tested once and only as a panic of unwrap().",
 [D, G, C], [("Detail::set_composition", D), ("Gerg2008::set_composition", G)], ["return value", "public field x", "all later results"])
prop("C04", "Molar mass is the mole-fraction-weighted sum of component molar masses",
 "For both models, through the Rust and the C interface, the molar mass reported for any composition equals the sum over all 21 components of mole fraction times that component's published molar mass. It does not depend on temperature, pressure, density or on any earlier call, and computing the properties reports the same value.",
 ["inputs", "histories"], "every composition and any state of the rest of the model",
 "Two compositions are tested per model; trace components weigh 1e-4 and a wrong or skipped component can vanish in other compositions only.",
 [D, G, F], [("Detail::molar_mass", D), ("Gerg2008::molar_mass", G), ("aga8_/gerg_calculate_molar_mass", F)], ["return value of molar_mass (Detail)", "public field mm"])
prop("C05", "DETAIL evaluates the AGA8 DETAIL equation of state",
 "For every composition, temperature and density, the compressibility factor and pressure computed by DETAIL, and the internal energy, enthalpy, entropy, Gibbs energy and isochoric heat capacity derived with them, are those of the AGA8 DETAIL Helmholtz equation with its published parameters and binary interaction coefficients. This holds for any subset of the 21 components being present, not only for full natural-gas mixtures.",
 ["inputs"], "every temperature, density and composition, over all pure fluids, all 210 binaries and the full 21-component mixture",
 "Two compositions and six states are tested; a parameter of a pair that is present in traces only (products below 1e-8) can change by per-cents without moving any tested digit.",
 [D], [("x_terms/alphar/alpha0_detail/setup and the coefficient tables", D)], ["return value of pressure()", "public result fields after properties()"])
prop("C06", "GERG evaluates the GERG-2008 equation of state",
 "For every composition, temperature and density, the compressibility factor and pressure computed by GERG, and the internal energy, enthalpy, entropy, Gibbs energy and isochoric heat capacity derived with them, are those of the GERG-2008 Helmholtz equation with its published parameters, reducing functions and departure functions. This holds for any subset of the 21 components being present, not only for full natural-gas mixtures.",
 ["inputs"], "every temperature, density and composition, over all pure fluids, all 210 binaries and the full 21-component mixture",
 "Two compositions and three states are tested; parameters of trace pairs, or code taken only when some component is absent, are not exercised.",
 [G], [("reducingparameters/alphar/alpha0/tterms/setup and the coefficient tables", G)], ["return value of pressure()/properties()", "public result fields"])
prop("C07", "DETAIL results are mutually consistent derivatives of one energy",
 "At every state with positive density and a composition whose total is one, DETAIL's reported derivatives of pressure (first and second by density, first by temperature) are the true derivatives of the pressure it reports, its entropy, internal energy and heat capacity are the matching derivatives of its Helmholtz energy, and enthalpy, Gibbs energy, isobaric heat capacity, Joule-Thomson coefficient, speed of sound and isentropic exponent follow from those by the exact thermodynamic relations. The pressure and compressibility factor of a full property calculation equal those of a pressure calculation at the same state, and the speed of sound is never negative: it is zero where its square would be negative.",
 ["inputs"], "every temperature, positive density and composition",
 "Tests compare a handful of states with stored numbers; no relation between outputs is ever checked away from them.",
 [D], [("Detail::properties", D), ("Detail::pressure", D), ("alphar, alpha0_detail", D)], ["public result fields after properties()", "return value of pressure()"])
prop("C08", "GERG results are mutually consistent derivatives of one energy",
 "At every state with positive density and a composition whose total is one, GERG's reported derivatives of pressure (including the mixed one) are the true derivatives of the pressure it reports, its entropy, internal energy and heat capacity are the matching derivatives of its Helmholtz energy, and enthalpy, Gibbs energy, isobaric heat capacity, Joule-Thomson coefficient, speed of sound and isentropic exponent follow from those by the exact thermodynamic relations. The pressure and compressibility factor of a full property calculation equal those of a pressure calculation at the same state, and the speed of sound is never negative: it is zero where its square would be negative.",
 ["inputs"], "every temperature, positive density and composition",
 "Tests compare a handful of states with stored numbers; no relation between outputs is ever checked away from them.",
 [G], [("Gerg2008::properties", G), ("Gerg2008::pressure", G), ("alphar, alpha0, tterms", G)], ["public result fields after properties()", "return value of pressure()/properties()"])
prop("C09", "DETAIL results do not depend on earlier calls",
 "What a pressure, property or density calculation reports depends only on the composition, temperature, pressure and density set at the time of the call. After any sequence of earlier calls with other compositions and temperatures, however little they differ, and for every non-empty composition and positive temperature, the results are identical to those of a freshly created model given the same inputs.",
 ["histories", "inputs"], "every history of calls (bounded length) with arbitrary compositions, temperatures and densities in each step",
 "Every test uses one composition per instance; nothing changes the composition or creeps the temperature of a used instance.",
 [D], [("composition cache in x_terms", D), ("temperature cache in alphar", D)], ["all public results of the last call"],
 [("xold", "composition the cached terms belong to", D), ("told", "temperature the cached powers belong to", D)])
prop("C10", "GERG results do not depend on earlier calls",
 "What a pressure, property or density calculation reports depends only on the composition, temperature, pressure and density set at the time of the call. After any sequence of earlier calls with other compositions and temperatures, however little they differ and whichever components come and go, and for every non-empty composition and positive temperature, the results are identical to those of a freshly created model given the same inputs.",
 ["histories", "inputs"], "every history of calls (bounded length) with arbitrary compositions, component subsets, temperatures and densities in each step",
 "Every test uses one composition per instance; nothing changes the composition or creeps the temperature of a used instance.",
 [G], [("reducing-parameter cache", G), ("temperature-term cache", G)], ["all public results of the last call"],
 [("xold/drold/trold", "composition cache", G), ("told/trold2/taup/taupijk", "temperature-term cache", G)])
prop("C11", "DETAIL density: success means converged, failure means ideal-gas density",
 "When DETAIL's density calculation reports success, the density it leaves behind solves the equation of state for the requested pressure and temperature: it is within a relative 2e-7 of a density at which the model's own pressure and its slope are positive and the remaining Newton correction of the logarithm of volume is below 1e-7. When it reports an iteration failure the density is the ideal-gas density; at zero pressure (below 1e-15 in magnitude) it reports that the pressure is too low and the density is zero. It always ends after a bounded number of evaluations.",
 ["inputs"], "every pressure, temperature, composition and initial density value, on every iteration path",
 "Tests see only inputs that converge in a few steps; the restart, range, failure and last-iteration paths are never checked.",
 [D], [("Detail::density", D)], ["return value of density()", "public field d", "pressure() at that d"])
prop("C12", "GERG density: success means converged, failure means ideal-gas density",
 "When GERG's density calculation reports success, the density it leaves behind solves the equation of state for the requested pressure and temperature: it is within a relative 2e-7 of a density at which the model's own pressure and its slope are positive and the remaining Newton correction of the logarithm of volume is below 1e-7. When it reports an iteration failure the density is the ideal-gas density. If a stability check is requested it reports success exactly when a converged state passes that check (pressure, its density and mixed derivatives, both heat capacities and the speed of sound all positive), and it always ends after a bounded number of evaluations.",
 ["inputs"], "every pressure, temperature, composition, initial density and mode flag, on every iteration and restart path",
 "Tests only use mode 0 and inputs that converge; a random test ignores the results. Restarts, failures and the stability-check modes are never asserted.",
 [G], [("Gerg2008::density", G)], ["return value of density()", "public field d", "pressure()/properties() at that d"])
prop("C13", "The C interface mirrors the Rust interface exactly",
 "Every C function has exactly the effect and result of the corresponding Rust operation on the same model: setters and getters address the quantity they name, calculations return and store what the Rust call returns and stores, error outputs carry the verdict of the Rust call (success included), and the property record holds each quantity under its own name. DETAIL and GERG functions behave alike in this.",
 ["inputs", "histories"], "every value of every argument and every reachable model state, for all 28 functions",
 "The tests look at two fields of the record and never at temperature, pressure or density getters, calculate_pressure or any error code.",
 [F], [("extern \"C\" functions", F)], ["return values, out-parameters and model state after each C call"])
prop("C14", "No input makes a model panic, hang or leave its memory",
 "For every bit pattern of temperature, pressure, density, mode flag and the 21 mole fractions, every calculation on a model created by its constructor returns after a bounded amount of work. It never panics, never overflows an integer and never reads or writes outside the model's own memory.",
 ["inputs", "histories"], "all f64 values (NaN, infinities, negatives, subnormals) for every numeric input, every subset of components present, every mode flag",
 "A random test covers one composition in the normal range; invalid, extreme and partially absent inputs are not tried.",
 [D, G, C], [("constant index tables and loop bounds", D), ("constant index tables and loop bounds", G)], ["normal return of every public call"])
prop("C15", "Handles and instances are safe and independent",
 "Creating a model through the C interface yields a live handle to an independent model equal to a newly constructed one, and freeing it releases exactly that memory. Freeing a null handle does nothing, any other call on a null handle stops the program instead of touching memory, and no call on one model ever changes another model or any shared state.",
 ["histories", "inputs"], "interleavings of calls on two handles of either kind, null handles for every function, all argument values",
 "Each test uses a single valid handle; null handles, double instances and leaks are not tested.",
 [F, D, G], [("aga8_new/aga8_free/gerg_new/gerg_free and null assertions", F)], ["process behaviour", "state of the other handle"])
prop("C16", "Calculations change only the results they are documented to produce",
 "A pressure calculation leaves composition, temperature, pressure and density inputs as they were; a density calculation changes no input but the density; a property calculation leaves composition, temperature and density alone (DETAIL stores the computed pressure, GERG leaves the stored pressure alone and returns it). Computing the molar mass changes nothing but the molar mass.",
 ["inputs", "histories"], "every state and every path of every calculation, including failing density calculations and all mode flags",
 "Tests never look at the inputs after a call except the pressure in one state.",
 [D, G], [("pressure/density/properties/molar_mass", D), ("pressure/density/properties/molar_mass", G)], ["public input fields after each call"])
prop("C17", "At zero density both models report the ideal-gas limit",
 "At zero density, for every temperature and composition, both models report zero pressure, a compressibility factor of one, a density derivative of pressure equal to the gas constant times temperature, isobaric minus isochoric heat capacity equal to the gas constant, and enthalpy minus internal energy equal to the gas constant times temperature. The speed of sound then equals the ideal-gas value for that heat-capacity ratio and molar mass.",
 ["inputs"], "every positive temperature and every composition, at zero density",
 "No test evaluates a model at zero density, the special branch for it is never executed.",
 [D, G], [("low-density branch of properties", D), ("low-density branch of properties", G)], ["public result fields after properties() with d = 0"])
prop("C18", "A density search ignores leftover density unless a negative guess is given",
 "The outcome of a density calculation in the default mode depends only on pressure, temperature and composition, whatever density value (zero, positive or not a number) an earlier calculation left behind. Only an explicitly negative density (beyond -1e-15) is used, by its magnitude, as the initial estimate.",
 ["inputs", "histories"], "every leftover density value, pressure, temperature and composition",
 "The tests start from two leftover density values only.",
 [D, G], [("initial estimate in Detail::density", D), ("initial estimate in Gerg2008::density", G)], ["return value of density()", "public field d"])
prop("C19", "Density converges everywhere in the normal range",
 "For every natural-gas composition, temperature and pressure within the normal range of the equations of state, the density calculation of both models succeeds.",
 ["inputs"], "all compositions, temperatures and pressures in the normal range",
 "A random test of 100000 states discards the results.",
 [D, G], [("Detail::density", D), ("Gerg2008::density", G)], ["return value of density()"])
prop("C20", "Double-precision results agree with the equations to their stated accuracy",
 "In the normal range, accumulated floating-point rounding keeps every reported result within a relative 1e-9 of the exact value of the equation of state.",
 ["inputs"], "all states in the normal range",
 "Tests compare a few states with stored numbers from the same arithmetic.",
 [D, G], [("alphar", D), ("alphar", G)], ["public result fields"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
