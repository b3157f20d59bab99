"""C14  error states count occurrences exactly."""
from dv.runner import Task
from . import errors as K, errors_rt as B
def proof_tasks(tier):
    return [Task("increment", K.increment), Task("clear_some", K.clear_some), Task("clear_all", K.clear_all), Task("has_error_id", K.has)] + \
           [Task("listing " + h, K.listing(h)) for h in ("states", "json", "get", "clear")]
TRUSTED = ["dict (insertion-ordered table of keepers), str.upper as an idempotent function of the text, json.dumps (what is dumped is checked, not the text)"]
ASSUMPTIONS = ["codes are text; numbers of occurrences are integers", "single-threaded use (no operation suspends)"]
RULE = "all sequences of up to 3-4 operations over a few codes, then seeded random ones up to length 40, compared with a table of counts"
RUNTIME_S = {"quick": 6, "thorough": 90}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
