"""C04  pending and error queues keep an item's identity when it moves."""
from dv.runner import Task
from . import pending as K, pending_rt as B
def proof_tasks(tier):
    return [Task("push_pending", K.push("pending")), Task("push_error", K.push("error")), Task("pop", K.pop), Task("sizes", K.sizes), Task("clear, list, shut down", K.others),
            Task("move_one", K.move_one), Task("move_all", K.move_all)] + \
           [Task(f"{o}_{q}_q_span_key", K.by_key(f"{o}_{q}_q_span_key", q, {"pop": "popk", "inspect": "insp"}[o])) for o in ("pop", "inspect") for q in ("pending", "error")]
TRUSTED = ["PaginatedQueue by its contract (proved under C01-C03); its methods contain no suspension point, so a move is not interleaved with other tasks",
           "pydantic: PendingEntry/ErrorEntry keep the given fields"]
ASSUMPTIONS = ["page_size >= 1", "payloads and metadata survive pickling (C01)", "an item moved to the pending queue while its key is already pending is dropped as a duplicate (C01)"]
RULE = "all sequences of up to 2-3 operations on real queue files over a few items, then seeded random ones up to length 14, compared with two lists of items"
RUNTIME_S = {"quick": 8, "thorough": 150}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
