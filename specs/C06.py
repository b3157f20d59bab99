"""C06  every buffered request taken for processing ends in exactly one place."""
from dv.runner import Task
from . import buffered, buffered_rt
from .buffered import TRUSTED, ASSUMPTIONS

RULE = "processing scripts per item (success, falsy result, exception or cancellation in the function or in middleware, pausing or shutting down meanwhile) x retry budgets and counts: all single and paired steps, then seeded random mixes of up to 6 items"
RUNTIME_S = {"quick": 20, "thorough": 240}


def proof_tasks(tier):
    combos = [((), False), (("span_key", "dto"), True)] + ([(("dto",), True), (("span_key",), False)] if tier == "thorough" else [])
    return [Task(f"handler.processing{list(a)}", buffered.processing("handler", a, o)) for a, o in combos] + [Task("handler.start processing", buffered.restart("handler"))]


def run_scenario(s): return buffered_rt.run_outcomes(s, "handler")
def exhaustive(tier): return buffered_rt.outcome_exhaustive("handler", tier)
def scenarios(tier, rnd): return buffered_rt.outcome_scenarios(rnd, "handler")
