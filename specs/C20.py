"""C20  translated metrics report exactly the statistics they were made from."""
from dv.runner import Task
from . import metrics as K, metrics_rt as B
def proof_tasks(tier):
    return [Task("_flatten", K.flatten), Task("_iter_queue_groups", K.queue_groups, branch_ms=50),
            *[Task(f"translate_gathered_stats ({d}{p})", K.translate(not d, p), branch_ms=50) for d in ("", "groups given, ") for p in K.PARTS]]
TRUSTED = ["str.replace of single characters (the order of replacements that do not feed each other does not matter)", "iteration over a dict meets every entry once",
           "a generator gives, in order, what it yields; its caller takes all of it"]
ASSUMPTIONS = ["a statistics document is a finite tree (JSON): the recursion of _flatten is on smaller entries", "whole numbers stand for all numbers in the proofs (floats only in the bounded check); numbers are not booleans",
               "the known entries have their documented shape: numbers (or null) where numbers belong, groups where groups belong", "two numbers whose names become equal once dots and dashes are replaced are not told apart",
               "_scrape_and_push (health, failing services, push) is checked at run time only (bounded)"]
RULE = "all small documents over a few names and values, excluded groups and identities, scrapes of up to 3 services that answer or fail; then seeded random documents and scrapes, compared with an independent account of the numbers"
RUNTIME_S = {"quick": 8, "thorough": 120}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
