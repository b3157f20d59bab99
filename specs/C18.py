"""C18  queue management acts on exactly the addressed queue and reports it truthfully."""
from dv.runner import Task
from . import manage as K, manage_rt as B
def proof_tasks(tier): return [Task(f"{k} {o}", K.endpoint(k, o)) for k, o in K.OPS]
TRUSTED = ["PaginatedQueue by its contract (proved under C01-C03) and PendingQueue.move_all_error_to_pending by its contract (proved under C04); both without suspension points",
           "dict (table by route key), pydantic (a DTO holds the given fields; T(**payload) is a function of a fitting payload), asyncio.create_task"]
ASSUMPTIONS = ["registered endpoints (senders) have distinct route keys", "queued payloads fit the type of the endpoint they are queued for", "whether processing is paused after reprocessing is only reported, not specified",
               "the wording of messages is checked at run time only (unknown, absent and done are told apart)"]
RULE = "three endpoints and three senders sharing route keys, on real files: every management function from several paused states on filled queues, then seeded random sequences of up to 12 requests"
RUNTIME_S = {"quick": 10, "thorough": 120}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
