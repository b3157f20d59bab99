"""C07  every buffered message taken for sending ends in exactly one place."""
from dv.runner import Task
from . import buffered, buffered_rt
from .buffered import TRUSTED, ASSUMPTIONS

RULE = "sending scripts per message (success, each response and communication error, other exceptions, cancellation, pausing or shutting down meanwhile) x retry budgets and counts: all single and paired steps, then seeded random mixes of up to 6 messages"
RUNTIME_S = {"quick": 20, "thorough": 240}


def proof_tasks(tier): return [Task("sender.sending", buffered.processing("sender")), Task("sender.push_message", buffered.restart("sender"))]
def run_scenario(s): return buffered_rt.run_outcomes(s, "sender")
def exhaustive(tier): return buffered_rt.outcome_exhaustive("sender", tier)
def scenarios(tier, rnd): return buffered_rt.outcome_scenarios(rnd, "sender")
