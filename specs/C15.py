"""C15  statistics equal the sums of what was recorded, per gathering period."""
from dv.runner import Task
from . import statkeep as K, statistics_rt as B, routing, server
def proof_tasks(tier):
    t = lambda n, f: Task(n, f, branch_ms=15)
    return [t("set_statistic_value", K.set_value), t("increment", K.add("increment", 1, True)), t("increment by one", K.add("increment", 1, False)),
            t("decrement", K.add("decrement", -1, True)), t("decrement by one", K.add("decrement", -1, False)),
            t("add_endpoint_stats", K.record), t("track_endpoint_data", K.track), t("get_endpoint_percentiles", K.percentiles),
            t("get_current_statistics", K.updated("get_current_statistics")), t("reset of a group", K.reset_tree), t("reset at period end", K.reset_all),
            Task("gather_statistics", K.gather), Task("history", K.history), Task("eco.statistics.get", K.endpoint),
            Task("queue sizes of a buffered endpoint", K.queues_reported("handler")), Task("queue sizes of a buffered sender", K.queues_reported("sender")),
            Task("server.answer", server.answer(False)), Task("register_handler", routing.register)]
TRUSTED = ["statistics.quantiles(sorted durations, n=100) and sorted()", "copy.deepcopy gives an equal, separate copy", "str.split('.') gives the segments of a path (equal texts, equal segments)",
           "asyncio.sleep suspends; time.time reads the clock"]
ASSUMPTIONS = ["the paths in use do not collide: none is a group of another, none is one of the keeper's own entries", "recorded numbers are whole numbers in the proofs (floats only in the bounded check)",
               "gathering period >= 1 s; the history length is set before gathering starts", "a route is tracked before calls of it are counted (register_handler, C09)", "the keeper's operations do not run in several threads"]
RULE = "all sequences of up to 3 operations on nested and flat paths, endpoints and queues, period ends and questions, then seeded random ones, compared with plain sums; gathering on a simulated clock with histories of length 0-4"
RUNTIME_S = {"quick": 8, "thorough": 120}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
