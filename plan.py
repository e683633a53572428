"""Which contracts decide which property.

helpers: contracts of internal functions, proved first; each proved one is used
  as a stub (the caller then sees only the contract).  A helper whose contract
  is not met is inlined into its callers instead: internal reorganisation is
  not a violation.
tops: contracts of public operations and lemmas; these decide the property.
bounded: symbolic checks with a stated bound, used only when a loop contract
  cannot be re-established.
"""
TLK = ["TL._calculate_next_temp_upper", "TL._calculate_next_temp_lower", "TL._calculate_next_rndt"]
IRK = ["IR._calculate_next_temp", "IR._calculate_next_rndt"]
TLH = TLK + ["TL._step", "TL._reset"]
IRH = IRK + ["IR._step", "IR._reset"]
TLP = ["du", "dl", "lambda0", "a", "efficacy", "eta", "delta_t"]
IRP = ["q1", "q2", "d1", "d2", "efficacy", "delta_t"]
OUT = ["_create_ts", "TL._get_run_output_tss", "IR._get_run_output_tss"]
SET = ["TL.%s.setter" % p for p in TLP + ["erf"]] + ["IR.%s.setter" % p for p in IRP + ["erf"]]
REJ = ["TL.%s.reject" % p for p in TLP + ["erf"]] + ["IR.%s.reject" % p for p in IRP + ["erf"]]

PLAN = {
    "C01": (TLH + ["TL.set_drivers"], ["TL.run:temperatures", "TL.step:reassigned"]),
    "C02": (TLH + ["TL.set_drivers"], ["TL.run:heat-uptake", "TL.step:reassigned", "lemma:energy-closure"]),
    "C03": (["IR._calculate_next_temp", "IR._step", "IR._reset", "IR.set_drivers"],
            ["IR.run:temperatures", "IR.step:reassigned", "IR.run_scenarios:temperatures", "lemma:constant-forcing"]),
    "C04": (["IR._calculate_next_temp", "IR.get_two_layer_parameters", "IR._calculate_next_rndt", "IR._step", "IR._reset", "IR.set_drivers"],
            ["IR.run:heat-uptake", "IR.step:reassigned", "lemma:impulse-response-flux"]),
    "C05": (TLH + IRH, ["TL.run:heat-uptake", "IR.run:heat-uptake", "lemma:causality"]),
    "C06": (["gh"], ["TL.get_impulse_response_parameters", "TL.get_impulse_response_parameters:a",
                     "TL.get_impulse_response_parameters:reassigned"]),
    "C07": (["gh"], ["IR.get_two_layer_parameters", "IR.get_two_layer_parameters:reassigned", "roundtrip:IR-TL-IR", "roundtrip:TL-IR-TL"]),
    "C08": (TLH + IRH, SET + ["TL.run:heat-uptake", "IR.run:heat-uptake", "TL.get_impulse_response_parameters",
                              "IR.get_two_layer_parameters", "TL.step:reassigned", "IR.step:reassigned",
                              "TL.get_impulse_response_parameters:reassigned", "IR.get_two_layer_parameters:reassigned"]),
    "C09": ([], REJ),
    "C10": (TLH + IRH, ["TL.run:history", "IR.run:history", "TL.step:reassigned", "IR.step:reassigned"] + SET),
    "C11": (TLH + IRH, ["TL._reset", "IR._reset", "TL.reset:never-set", "IR.reset:never-set", "TL.set_drivers", "IR.set_drivers",
                        "TL.run:heat-uptake", "IR.run:heat-uptake"]),
    "C12": (TLH + IRH + OUT, ["TL.run_scenarios:values", "IR.run_scenarios:values"]),
    "C13": (OUT, ["TL.run_scenarios:labels", "IR.run_scenarios:labels"]),
    "C14": (["_ensure_scenarios_are_scmrun"], ["TL.run_scenarios:selection", "IR.run_scenarios:selection"]),
    "C15": (["_select_timestep"], ["TL.run_scenarios:timestep", "IR.run_scenarios:timestep"]),
    "C16": (TLH + IRH, ["TL.run:heat-uptake", "IR.run:heat-uptake", "lemma:two-layer-linearity", "lemma:impulse-response-linearity",
                        "lemma:impulse-response-bounds"]),
    "C17": ([], ["utils.convert_lambda_to_ecs"]),
    "C18": ([], ["TL.__init__", "IR.__init__"]),
}
BOUNDED = {}
# operations a property quantifies over only as earlier calls: of their contracts
# it needs that they change nothing but the run state, drivers and timestep
FRAMES = {"C10": ["TL.run_scenarios:timestep", "IR.run_scenarios:timestep", "TL.get_impulse_response_parameters",
                  "IR.get_two_layer_parameters", "utils.convert_lambda_to_ecs", "TL.__init__", "IR.__init__"]}
FRAME_KINDS = {"frame", "static state"}
# obligations about how the code is organised rather than what it computes:
# their failure makes the proof inconclusive, it is not by itself a violation
INTERNAL = {"loop invariant", "requires", "invariant", "frame", "library exception", "static state"}
FRAME_DECIDES = {"C09", "C14"}



def decisive(pid, role, o):
    """Does this obligation's refutation violate the property?"""
    if role not in ("top", "bounded") or o["status"] != "refuted":
        return False
    if o["kind"] == "after reset":
        # how reset prepares the run is C11's; the others are about the outputs after it
        return pid == "C11"
    if o["kind"] not in INTERNAL:
        return True
    return (o["kind"] == "frame" and pid in FRAME_DECIDES and "no attribute" not in o["name"]
            and not o["name"].startswith(("scenario loop", "loop", "run_scenarios")))


SCM = ["scmdata, pandas and tqdm behave as the stand-ins in contracts/scen_model.py (copy, filter, metadata assignment, timeseries, iterrows, "
       "dropna, set_levels, iloc assignment, concat, reorder_levels, ScmRun of a frame); anything else they are asked for makes the proof inconclusive",
       "input rows: one opaque value per metadata column, one further column standing for any others; any set of values may be missing as long as "
       "at least one is present; rows stay distinguishable once climate_model and saved parameters are set",
       "the scenario loop is verified for the first, the last and an arbitrary scenario in between, each from an arbitrary run state; "
       "collections built by the loop are compared at those three"]
ASSUME = {p: SCM for p in ("C03", "C12", "C13", "C14", "C15")}
