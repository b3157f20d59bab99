"""C05  a buffered endpoint stores before it acknowledges."""
from dv.runner import Task
from . import buffered, buffered_rt
from .buffered import TRUSTED, ASSUMPTIONS

RULE = "request/pause/unpause/process/reopen histories on a real endpoint behind ServerBase, with middleware that suspends, raises, pauses or shuts down meanwhile: all of length 3 over 8 operations, then seeded random ones up to length 25"
RUNTIME_S = {"quick": 15, "thorough": 200}


def proof_tasks(tier): return [Task("handler.run", buffered.receiving), Task("handler.start processing", buffered.restart("handler"))]
def run_scenario(s): return buffered_rt.run_receiving(s)
def exhaustive(tier): return buffered_rt.receiving_exhaustive(tier)
def scenarios(tier, rnd): return buffered_rt.receiving_scenarios(rnd)
