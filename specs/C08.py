"""C08  a server answers every request text with exactly one right response."""
from dv.runner import Task
from . import server
TRUSTED = ["RequestRouter.route_request by its contract (C09): a value, any exception, or cancellation at a suspension point",
           "json.loads is a function of the text up to surrounding white space and otherwise raises JSONDecodeError or, for extreme nesting or numbers, another exception",
           "pydantic: RequestDTO(**document) raises ValidationError or is a function of the document", "ContextVar.set/reset, one context per task"]
ASSUMPTIONS = ["the message of an exception can be computed (str(e) does not itself raise)", "clock readings are treated as integers"]
def proof_tasks(tier): return [Task("server.answer", server.answer(False)), Task("server.answer in a context", server.answer(True))]
from . import server_rt
RULE = "request texts of 16 kinds (valid, failing endpoints, unknown routes, rejected payloads, malformed documents, busy endpoints, unserialisable responses) sent directly, over concurrent in-memory stream connections and as datagrams: all kinds x arguments and pairs, then seeded random mixes"
RUNTIME_S = {"quick": 15, "thorough": 200}
def run_scenario(s): return server_rt.run(s)
def exhaustive(tier): return server_rt.exhaustive_answers(tier)
def scenarios(tier, rnd): return server_rt.scenarios_answers(rnd)
