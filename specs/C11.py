"""C11  a client call retries within its budget and never returns another call's response."""
from dv.runner import Task
from . import client as K
def proof_tasks(tier): return [Task(f"{k}.call", K.retries(k)) for k in K.KINDS] + [Task(f"{k}.heartbeat", K.heartbeat(k)) for k in ("persisted_tcp", "persisted_uds")]
from . import client_rt as B
TRUSTED = ["asyncio streams: a connection gives the responses in the order of its requests and nothing after it is dropped; readline gives one whole line, or what came before the end",
           "asyncio.Lock gives mutual exclusion; asyncio.wait_for ends with the result or with TimeoutError and cancels", "asyncio.DatagramProtocol gets only what arrives on its own socket; the server answers each datagram once"]
ASSUMPTIONS = ["max_retries >= 1", "a response cut off by the server closing is not claimed for transient clients", "fields of the client not assigned outside its constructor keep their value"]
RULE = "all five client classes on virtual time against a scripted server: every sequence of up to 2-3 late/missing/cut/reset/split responses and failed connections, cancellations at every phase, overlapping calls, heartbeats"
RUNTIME_S = {"quick": 12, "thorough": 200}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
