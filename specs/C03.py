"""C03  key-addressed operations, size, listing, clear."""
from dv.runner import Task
from . import queue, queue_rt
from .queue_trust import TRUSTED, ASSUMPTIONS

RULE = "histories mixing key-addressed operations, listings and clear; all of length 4 over a 7-letter alphabet, then seeded random ones"
RUNTIME_S = {"quick": 15, "thorough": 240}


def proof_tasks(tier):
    return [Task(f"queue.{o}", queue.task(o)) for o in ("get_first_x_span_keys", "pop_span_key", "inspect_span_key", "clear", "size", "is_empty")]


def run_scenario(s): return queue_rt.run_history(s, ("keys",))


def exhaustive(tier):
    yield from queue_rt.exhaustive(("+", "pop", "popk", "insp", "first", "clear", "popk0"), 4 if tier == "quick" else 5)


def scenarios(tier, rnd):
    yield from queue_rt.histories(rnd, {"push": 7, "pop": 2, "popk": 2, "insp": 2, "first": 2, "clear": 0.5, "reopen": 0.8})
