"""C22  every log record is written once, in order, with its severity."""
from dv.runner import Task
from . import logfile as K, logfile_rt as B
def proof_tasks(tier):
    return [Task("logger at run time", K.eco_run), Task("emit", K.emit), Task("flush", K.flush("flush")), Task("close", K.flush("close")), Task("set_buffer_size", K.resize), Task("handler", K.made), Task("severity", K.severity), Task("format", K.format_),
            Task("logger setup", K.eco_setup), Task("eco.log.level", K.endpoint("level")), Task("eco.log.buffer", K.endpoint("buffer"))]
TRUSTED = ["logging.Handler: handle() filters by level and calls emit with the handler's re-entrant lock held; acquire/release; logging.Logger passes each record at or above its level once to each of its handlers",
           "logging.handlers.RotatingFileHandler.emit writes the formatted record to the end of the log and rotates files without losing records beyond the configured number of files",
           "LogRecord.getMessage; datetime.fromtimestamp(t, utc).isoformat() as a function of the time; pydantic's model_dump_json gives the fields of the record on one line"]
ASSUMPTIONS = ["records can be formatted and encoded (a record that cannot is reported by logging and not written)", "emit of the file handler does not log through the same handler", "the span key in a record is the one at the time it is written"]
RULE = "every level name and number, every destination, handlers of every mode and small buffer size with up to five records, threads that log during a flush; then seeded random sequences of logging, flushing and changing level and buffer size, with rotation"
RUNTIME_S = {"quick": 12, "thorough": 120}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
