"""Writes /verif/properties.jsonl (kept as code so anchors stay readable)."""
import json, os
B = "src/openscm_twolayermodel/base.py"
T = "src/openscm_twolayermodel/two_layer_model.py"
I = "src/openscm_twolayermodel/impulse_response_model.py"
U = "src/openscm_twolayermodel/utils.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Two-layer temperatures follow the documented energy-balance recursion",
     "For every two-layer model with positive layer depths and timestep and every finite forcing series, the upper and lower layer temperatures of a run are zero at the first time point. Every later value is the previous one advanced by exactly one forward-difference step driven by the forcing at the previous time point: the upper layer warms at [F - (lambda0 - a*T_upper)*T_upper - efficacy*eta*(T_upper - T_lower)] / C_upper and the lower layer at eta*(T_upper - T_lower) / C_lower, where C = depth * 1000 kg/m^3 * 4181 J/K/kg.",
     ["inputs", "configurations"], "all parameter values (du, dl, dt > 0; lambda0, a, efficacy, eta any real), all forcing series of any length, all time points",
     "Tests compare one step for one parameter set with the code's own helper; no test fixes the trajectory of a whole run for arbitrary parameters, length or position in the series.",
     [T, B], [("step kernel", T + ":_calculate_next_temp_upper/_calculate_next_temp_lower"), ("time loop", T + ":_step/_run"), ("heat capacities", T + ":heat_capacity_upper/heat_capacity_lower")],
     [("temperature arrays", "one entry per driver value, NaN until computed", T + ":_temp_upper_mag,_temp_lower_mag"), ("timestep index", "NaN before the first step, then index of last computed point", T + ":_timestep_idx")],
     ["temperature arrays of the model after run()", "Surface Temperature|Upper and |Lower in run_scenarios output"])
prop("C02", "Two-layer heat uptake closes the energy budget",
     "For every two-layer run, the heat uptake is zero at the first time point and, at every later one, heat uptake times the timestep equals the change in heat content C_upper*T_upper + C_lower*T_lower since the previous point, so the running sum of heat uptake times the timestep always equals the heat content. Equivalently it equals the previous point's forcing minus the feedback (lambda0 - a*T_upper)*T_upper minus (efficacy - 1)*eta*(T_upper - T_lower).",
     ["inputs", "configurations"], "all parameter values with du, dl, dt > 0, all forcing series, all time points",
     "The tests recompute the formula for one step and one parameter set; conservation over a whole run is a statement about every step of every run.",
     [T], [("heat uptake kernel", T + ":_calculate_next_rndt"), ("time loop", T + ":_step/_run")],
     [("heat uptake array", "net downward heat flux per time point", T + ":_rndt_mag")], ["Heat Uptake in run_scenarios output"])
prop("C03", "Impulse-response temperatures follow the exact exponential recursion",
     "For every impulse-response model with 0 < d1 < d2 and positive q1, q2 and efficacy and every finite forcing series, each box temperature is zero at the first time point and every later value equals previous*exp(-dt/d) + q*F_previous*(1 - exp(-dt/d)) with that box's own q and d; the reported surface temperature is the sum of the two boxes. Under constant forcing the box temperature after n steps is therefore q*F*(1 - exp(-n*dt/d)), however the interval is divided into steps.",
     ["inputs", "configurations"], "all q1, q2, efficacy > 0, 0 < d1 < d2, dt > 0, all forcing series of any length, all time points",
     "Tests check one step against the code's own helper and one run against a 0.1 K tolerance; neither pins the recursion for other parameters or later time points.",
     [I], [("box kernel", I + ":_calculate_next_temp"), ("time loop", I + ":_step/_run"), ("output", I + ":_get_run_output_tss")],
     [("box temperature arrays", "one entry per driver value", I + ":_temp1_mag,_temp2_mag")], ["Surface Temperature, |Box 1, |Box 2 in run_scenarios output"])
prop("C04", "Impulse-response heat uptake equals that of the equivalent two-layer model",
     "For every impulse-response model with 0 < d1 < d2 and positive q1, q2 and efficacy, in whatever compatible units its parameters were given, the heat uptake (W/m^2) is zero at the first time point and at every later one equals the net heat flux of the equivalent two-layer system at the previous point: F - T/(q1+q2) - (efficacy - 1)*eta*(T - T_deep), where T = T1 + T2, T_deep = phi1*T1 + phi2*T2. This is exactly the rate of change of the total heat content C_upper*T + C_lower*T_deep of that system.",
     ["inputs", "configurations"], "all valid parameter sets and compatible units, efficacy equal to and different from 1, all forcing series and time points",
     "The unit test uses one parameter set in default units and the equivalence test a 0.1 W/m^2 tolerance with default units; unit combinations and the identity itself are not sampled.",
     [I, B], [("heat uptake kernel", I + ":_calculate_next_rndt"), ("equivalent parameters", I + ":get_two_layer_parameters"), ("geoffroy helper", B + ":_calculate_geoffroy_helper_parameters")],
     [("heat uptake array", "net downward heat flux per time point", I + ":_rndt_mag")], ["Heat Uptake in run_scenarios output"])
prop("C05", "Outputs are causal: only earlier forcing matters",
     "In both models every output (temperatures and heat uptake) at time point i depends only on forcing values strictly before i: changing the forcing at i or later, or shortening or extending the series after i, leaves all outputs up to and including i unchanged. In particular outputs at the first point are always zero and the last forcing value never affects the outputs.",
     ["inputs"], "all pairs of forcing series agreeing on a prefix, all parameters, all time points",
     "A relational property over pairs of runs; tests never compare two runs whose forcings share a prefix.",
     [T, I], [("time loop reads index-1 only", T + ":_step; " + I + ":_step")], [], ["all output timeseries"])
prop("C06", "Two-layer to impulse-response conversion is physically exact",
     "For every two-layer model with positive du, dl, lambda0, eta, efficacy and a = 0, the derived impulse-response parameters describe the same physical system: 0 < d1 < d2, q1 and q2 are positive with q1 + q2 = 1/lambda0, efficacy is passed through, they are accepted by the impulse-response constructor, and the continuous-time dynamics are identical (T1 + T2 is the upper and phi1*T1 + phi2*T2 the lower temperature, for all states and forcings). For every non-zero a, however small, the conversion raises ValueError.",
     ["inputs", "configurations"], "all positive parameter values, in any compatible units",
     "One parameter set is compared with a transcription of the code's own formulas; the physics that makes the conversion right is only sampled, at 0.1 K tolerance.",
     [T, B], [("conversion", T + ":get_impulse_response_parameters"), ("geoffroy helper", B + ":_calculate_geoffroy_helper_parameters")], [], ["return value of get_impulse_response_parameters"])
prop("C07", "Impulse-response to two-layer conversion is exact and round trips are identities",
     "For every impulse-response model with 0 < d1 < d2 and positive q1, q2, efficacy, the derived two-layer parameters (du, dl, lambda0, eta, efficacy) are positive, lambda0 = 1/(q1+q2), and describe the same physical system. Converting impulse-response -> two-layer -> impulse-response, or two-layer (a = 0, positive parameters) -> impulse-response -> two-layer, returns the original parameter values.",
     ["inputs", "configurations"], "all positive parameter values, in any compatible units",
     "One parameter set is round-tripped in one direction.",
     [I, T, B], [("conversion", I + ":get_two_layer_parameters"), ("conversion", T + ":get_impulse_response_parameters"), ("geoffroy helper", B + ":_calculate_geoffroy_helper_parameters")], [], ["return values of both conversions"])
prop("C08", "Results depend on physical quantities, not on the units they are given in",
     "Giving any parameter, the timestep or the forcing in any compatible unit yields the same physical results (run outputs, heat capacities, derived parameters of the other model) as giving the same quantity in the default unit, at construction and on later assignment alike. Reading a parameter back returns the quantity exactly as given, and every quantity computed from it reflects its latest assigned value.",
     ["inputs", "configurations", "histories"], "every parameter, every compatible multiplicative unit (arbitrary scale), every order of assignments",
     "Tests use default units almost everywhere (one depth in mm/km, one forcing in kW/m^2).",
     [B, T, I], [("normalising setters", T + ":setters; " + I + ":setters; " + B + ":delta_t, erf setters")],
     [("magnitudes", "internal magnitudes in the class's declared units", T + "/" + I + ":*_mag")], ["property getters, run outputs, conversion outputs"])
prop("C09", "Invalid quantities are always rejected and leave the model untouched",
     "Assigning (or constructing with) anything that is not a unit-carrying quantity raises TypeError, and a quantity whose dimensions are incompatible raises UnitError, for every parameter, the timestep and the forcing of both models. A rejected assignment or a rejected set_drivers call leaves the model exactly as it was: getters and later runs behave as if it had not been attempted.",
     ["inputs", "histories"], "every settable attribute, every non-quantity value, every incompatible dimension, at any point in a model's life",
     "Tests try the number 34.3 and kg at construction only, never assignment to a live model nor the state afterwards.",
     [B, T, I], [("validation before assignment", B + ":_assert_is_pint_quantity_with_units"), ("setters", T + ":setters; " + I + ":setters; " + B + ":delta_t, erf")], [], ["exceptions; model attributes after them"])
prop("C10", "A run depends only on current parameters and drivers, not on history",
     "After set_drivers, reset and run, the outputs are those a freshly constructed model with the same current parameters, timestep and drivers would give, whatever sequence of assignments, driver changes, resets, steps, runs, scenario runs or rejected calls came before, and repeating reset and run reproduces them. Distinct model instances never influence each other.",
     ["histories"], "all finite sequences of public operations on one or several models before the run",
     "Tests run each model once from fresh (one test resets after a run but does not re-run).",
     [B, T, I], [("reset reinitialises run state", T + ":_reset; " + I + ":_reset"), ("setters refresh derived magnitudes", T + "/" + I + ":setters")],
     [("run state", "timestep index and output arrays", T + "/" + I)], ["output arrays after run()"])
prop("C11", "Runs are refused until valid one-dimensional drivers are set",
     "reset raises ModelStateError if the drivers have never been set or contain any NaN at any position, and otherwise clears all outputs to NaN with exactly one entry per driver value and succeeds. set_drivers raises AssertionError for array quantities that are not one-dimensional, leaving previously set drivers in force, and accepts one-dimensional quantities of every length; the following run fills every entry.",
     ["inputs", "histories"], "all driver arrays of any length, NaN position and dimensionality, before and after earlier runs",
     "Tests only reset a model that never had drivers and one with three finite values.",
     [B, T, I], [("driver validation", B + ":set_drivers"), ("reset guard", T + ":_reset; " + I + ":_reset")], [], ["exceptions; output arrays after reset/run"])
prop("C12", "Each scenario is run independently, as a standalone run would",
     "In run_scenarios, every selected timeseries gets exactly the outputs that a standalone model with the same parameters, the inferred timestep and that timeseries' own values and own unit as drivers would produce, with trailing or leading missing values dropped and the values attached to that timeseries' own time points. The outputs of one scenario do not depend on which other scenarios are in the input, nor on their order.",
     ["inputs", "configurations"], "all numbers and orders of scenarios, per-row units, per-row missing tails, both models",
     "Tests use at most two fully populated scenarios sharing one unit.",
     [B, T, I], [("scenario loop", B + ":run_scenarios"), ("output", T + ":_get_run_output_tss; " + I + ":_get_run_output_tss; " + B + ":_create_ts")], [], ["run_scenarios return value"])
prop("C13", "run_scenarios output is complete and correctly labelled",
     "The result holds, for each selected input timeseries, the unchanged driver timeseries plus one timeseries per documented output variable (two-layer: Surface Temperature|Upper, Surface Temperature|Lower, Heat Uptake; impulse response: Surface Temperature, |Box 1, |Box 2, Heat Uptake) with unit delta_degC or W/m^2, and nothing else. Every output row carries the input row's metadata, the model's name as climate_model, every saved model parameter's magnitude under 'name (unit)' and a run index numbering the scenarios from 0 in input order.",
     ["inputs", "configurations"], "all scenario tables, metadata columns, parameter values and units, both models",
     "Tests check a few variable units and values for one input layout; metadata, driver rows, saved parameters and run index are not checked.",
     [B, T, I], [("metadata", B + ":run_scenarios"), ("row construction", B + ":_create_ts"), ("output list", T + ":_get_run_output_tss; " + I + ":_get_run_output_tss")], [], ["run_scenarios return value"])
prop("C14", "Only the requested World driver is used and the input is not modified",
     "run_scenarios drives the model with exactly those input timeseries whose variable is driver_var and whose region is World; all other rows, whatever their values or units, have no effect on the result. If there is none it raises ValueError (before touching the model), and in every case the caller's scenario object is left unmodified.",
     ["inputs"], "all scenario tables mixing variables, regions and units; every driver_var",
     "Tests use inputs holding only matching rows, or none.",
     [B], [("defensive copy", B + ":_ensure_scenarios_are_scmrun"), ("selection", B + ":run_scenarios")], [], ["run_scenarios return value, exceptions, the input object afterwards"])
prop("C15", "The timestep is inferred from the scenario's time axis or refused",
     "run_scenarios sets the model timestep to 1 month when all consecutive time points are 28 to 31 days apart (inclusive), to 1 year when every time point falls in the calendar year after the previous one (or there is a single time point), and otherwise raises NotImplementedError without running; a timestep previously set on the model has no influence. Two time points 28 to 31 days apart are monthly even across a year boundary.",
     ["inputs"], "all time axes of any length, spacing and offset",
     "Tests use one annual and one monthly axis.",
     [B], [("timestep selection", B + ":_select_timestep"), ("assignment", B + ":run_scenarios")], [], ["delta_t after run_scenarios; exceptions"])
prop("C16", "Model response is linear, zero at rest and bounded",
     "With a = 0 the two-layer outputs, and always the impulse-response outputs, are linear in the forcing: the response to any linear combination of two forcing series is the same combination of the two responses, and zero forcing gives identically zero outputs. Each impulse-response box temperature (q > 0) stays between q times the smallest and q times the largest of zero and the forcing values so far.",
     ["inputs", "configurations"], "all pairs of forcing series, coefficients, parameters with dt > 0 and time points",
     "Relational and for-all statements; tests only assert non-negativity for one increasing forcing.",
     [T, I], [("step kernels", T + ":_step; " + I + ":_step")], [], ["all output timeseries"])
prop("C17", "Feedback to climate-sensitivity conversion is exact in any units",
     "convert_lambda_to_ecs returns exactly -f2x/lambda (as a temperature quantity, compatible with delta_degC) for every non-zero feedback and every forcing in any compatible units, using 3.74 W/m^2 when no forcing is given, and raises TypeError whenever either argument is not a unit-carrying quantity. Calls never influence one another.",
     ["inputs", "histories"], "all non-zero lambda, all f2x, all compatible units, repeated calls",
     "Tests sample a few positive sensitivities and always pass the forcing explicitly.",
     [U], [("conversion", U + ":convert_lambda_to_ecs")], [], ["return value"])
prop("C18", "Construction stores exactly the given parameters and documented defaults",
     "A newly built model holds exactly the parameter and timestep quantities passed (and the documented default for each one omitted, independently of the others), has no usable drivers, and NaN outputs. An impulse-response model is refused with ValueError exactly when d1 >= d2 as physical quantities, whatever their units.",
     ["inputs", "configurations"], "all subsets of explicit parameters, all values and units",
     "One full keyword set per model is tested, and one backwards pair of timescales in equal units.",
     [T, I], [("constructor", T + ":__init__; " + I + ":__init__")], [], ["getters after construction; exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
