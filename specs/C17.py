"""C17  at most one running process per application instance."""
from dv.runner import Task
from . import lockfile as K, lockfile_rt as B
def proof_tasks(tier): return [Task("start", K.start)]
TRUSTED = ["os.kill(pid, 0) tells a live process (also one of another user) from a dead one, raises OverflowError beyond 32 bits and succeeds for ids of zero and below; os.path.exists, os.remove, open/read/write of one file; os.getpid",
           "int() of the text written for a process id is that id"]
ASSUMPTIONS = ["two processes do not start at the same moment (the check and the creation of the lock file are separate steps)", "the lock file does not name the starting process itself", "the lock directory exists and is writable",
               "lock file content: exactly one process id (with white space), or no readable id at all"]
RULE = "every listed lock file content (absent, empty, junk, undecodable, ids of live, foreign, dead, negative, zero and huge processes) for several names and instances, on real files with a stand-in for os.kill"
RUNTIME_S = {"quick": 4, "thorough": 30}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
