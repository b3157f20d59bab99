"""C13  the LRU cache keeps the most recently used entries and their values."""
from dv.runner import Task
from . import lru as K, lru_rt as B
def proof_tasks(tier):
    return [Task("setitem", K.setitem), Task("pop", K.pop), Task("clear", K.clear)] + [Task(o, K.lookup(o)) for o in ("getitem", "get", "peek", "contains")] + \
           [Task(o, K.removal(o)) for o in ("delitem", "pop_item")] + [Task(o, K.listing(o)) for o in ("keys", "values", "items", "iter", "len")]
TRUSTED = ["dict: membership, lookup, assignment, removal, length and clear (specs/lru.py: Index)"]
ASSUMPTIONS = ["capacity >= 1", "keys are hashable and compare as Python values do", "the cache is not changed while it is being iterated over; generators are run to their end",
               "the representation invariant (ring of nodes from the head, filled ones first, index of the filled ones) is proved to be established by the constructor and preserved by every operation"]
RULE = "all sequences of up to 4-5 operations over 3 keys for capacities 1-3, then seeded random ones up to length 60 and capacity 6, compared with an ordered list of entries"
RUNTIME_S = {"quick": 6, "thorough": 120}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
