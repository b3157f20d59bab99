"""C09  requests reach exactly the endpoint registered for their route, with middleware around it."""
from dv.runner import Task
from . import routing as R
def proof_tasks(tier):
    return [Task("route_request", R.route), Task("register_handler", R.register), Task("middleware.add", R.added), Task("buffered_middleware.add", R.b_added),
            Task("collect_push_metadata", R.collect), Task("run_before_process", R.around("before_process")), Task("run_after_process", R.around("after_process"))] + \
           [Task(f"endpoint.{n}.{'typed' if t else 'untyped'}", R.inject(n, t)) for n in R.combos() for t in (True, False)] + \
           [Task(f"buffered_endpoint.{n}", R.inject_buffered(n)) for n in R.combos()]
from . import routing_rt as B
TRUSTED = ["inspect.signature(f).parameters names the declared parameters", "pydantic: a model built from a mapping is a function of the mapping or raises ValidationError",
           "handlers by the contract of attempt_request, user middleware and endpoint functions give any value or raise anything", "SingletonType gives one instance per class"]
ASSUMPTIONS = ["the routing table and the middleware list do not change while a request is on its way", "parameters other than the payload and the span key are not claimed"]
RULE = "endpoints with every parameter combination, 0-4 middlewares that pass, change, re-route or fail, duplicate and unknown routes, valid and invalid payloads; buffered middleware with every metadata combination up to 3"
RUNTIME_S = {"quick": 12, "thorough": 200}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
