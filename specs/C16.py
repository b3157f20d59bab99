"""C16  configuration takes the most specific environment setting."""
from dv.runner import Task
from . import config as K, config_rt as B
def proof_tasks(tier):
    return [Task(f"{c}.{f}", K.number(c, f, p, d)) for c, f, p, d in K.NUMBERS] + [Task(f"{c}.{f}", K.text(c, f, p, d)) for c, f, p, d in K.TEXTS] + \
           [Task("default directory", K.default_dir), Task("log file", K.file_path), Task("tcp", K.address("tcp", "TCP")), Task("udp", K.address("udp", "UDP")), Task("uds", K.uds), Task("extra", K.extra, branch_ms=20)]
TRUSTED = ["os.environ as a mapping in any order; str.startswith, str.removeprefix / replace(prefix, '', 1) and concatenation by their laws; int() of a text is a number or ValueError; str.split(':') by the number of parts; os.path.dirname/basename/isdir",
           "pydantic calls a field's default_factory when no value is given"]
ASSUMPTIONS = ["a variable set to the empty text counts as not set (except extra settings)", "non-Windows platform", "module constants made from the application, instance and default directory names are read off a copy of the module loaded under marker names",
               "the wiring of the parts into AppConfiguration, and configuration files, are checked at run time only"]
RULE = "the module loaded for two applications under every combination of set/unset/empty at the three levels of every setting (with settings of similarly named applications and instances present), malformed values, then seeded random environments and configuration files"
RUNTIME_S = {"quick": 12, "thorough": 120}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
