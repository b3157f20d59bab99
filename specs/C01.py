"""C01  queue: FIFO, exactly once, deduplicated by key."""
from dv.runner import Task
from . import queue, queue_rt
from .queue_trust import TRUSTED, ASSUMPTIONS

RULE = "histories of push/pop/duplicate push/reopen over page sizes 1..7: all of length 5 over a 4-letter alphabet, then seeded random ones up to length 60"
RUNTIME_S = {"quick": 15, "thorough": 240}


def proof_tasks(tier):
    ops = ["pop", "push", "push_dup", "size", "is_empty"]
    return [Task(f"queue.{o}", queue.task(o)) for o in ops]


def run_scenario(s): return queue_rt.run_history(s, ())


def exhaustive(tier):
    yield from queue_rt.exhaustive(("+", "pop", "dup", "popk"), 5 if tier == "quick" else 7)


def scenarios(tier, rnd):
    yield from queue_rt.histories(rnd, {"push": 6, "pop": 4, "popk": 1, "reopen": 0.3, "insp": 0.3})
