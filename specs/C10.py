"""C10  a client turns every response into the matching result or exception."""
from dv.runner import Task
from . import client as K
def proof_tasks(tier):
    return [Task(f"{k}.send_message.{'key' if w else 'nokey'}", K.result(k, w)) for k in K.KINDS for w in (True, False)] + \
           [Task(f"{n}.{'key' if w else 'nokey'}", f(w)) for n, f in (("send_data", K.send_data), ("sender", K.decorated)) for w in (True, False)]
from . import client_rt as B
TRUSTED = ["pydantic: model_dump_json of a request is a JSON text of its fields, and a model built from a mapping is a function of the mapping or raises ValidationError", "json.loads is a function of the text",
           "the exchange by the contract proved under C11 (the response text or one of the two communications exceptions)", "SpanKey.generate gives a key never given before (128+64 random bits)"]
ASSUMPTIONS = ["max_retries >= 1"]
RULE = "all five client classes and the sender forms against scripted answers: every listed status and several unlisted ones, fitting and unfitting payloads"
RUNTIME_S = {"quick": 8, "thorough": 120}
def run_scenario(s): return B.run10(s)
def exhaustive(tier): return B.exhaustive10(tier)
def scenarios(tier, rnd): return B.scenarios10(rnd)
