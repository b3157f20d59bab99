"""C02  orderly shutdown and reopening keep the contents."""
from dv.runner import Task
from . import queue, queue_rt
from .queue_trust import TRUSTED, ASSUMPTIONS

RULE = "histories with shutdown and reopening (possibly with another page size), all of length 5 over a 4-letter alphabet, then seeded random ones"
RUNTIME_S = {"quick": 15, "thorough": 240}


def proof_tasks(tier):
    return [Task("queue.shut_down", queue.task("shut_down")), Task("queue.reopen", queue.task_reopen)] + [Task(f"queue.{o}", queue.task(o)) for o in ("pop", "push")]


def run_scenario(s): return queue_rt.run_history(s, ("keys",))


def exhaustive(tier):
    yield from queue_rt.exhaustive(("+", "pop", "reopen", "popk0"), 5 if tier == "quick" else 7)


def scenarios(tier, rnd):
    yield from queue_rt.histories(rnd, {"push": 6, "pop": 3, "popk": 1, "reopen": 2, "clear": 0.2})
