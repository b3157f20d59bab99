"""C21  stream and datagram servers keep request and response paired."""
from dv.runner import Task
from . import server
def proof_tasks(tier): return [Task("tcp.connection", server.connection("tcp")), Task("uds.connection", server.connection("uds")), Task("udp.datagram", server.datagrams)]
from . import server_rt
TRUSTED = ["ServerBase._route_request by its contract (C08)", "asyncio.StreamReader.readline returns a line ending in a line feed, or what is left at the end of the stream, or raises; a failing connection handler ends only its own connection",
           "model_dump_json of a response gives its JSON form on one line or raises PydanticSerializationError with an ASCII message", "asyncio.Lock, create_task; datagram_received is called once per datagram"]
ASSUMPTIONS = ["lines are within the stream reader's limit and valid UTF-8, otherwise the connection ends without an answer", "datagram enquiries are not claimed (the server checks for ACK)"]
RULE = "concurrent in-memory connections with requests and enquiries split into random chunks, ending in the middle of a line, failing writes; datagrams from several addresses: all sequences up to length 3 over 5 line kinds, then seeded random ones"
RUNTIME_S = {"quick": 15, "thorough": 200}
def run_scenario(s): return server_rt.run(s)
def exhaustive(tier): return server_rt.exhaustive_pairing(tier)
def scenarios(tier, rnd): return server_rt.scenarios_pairing(rnd)
