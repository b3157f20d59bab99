"""C12  span keys survive every encoding and compare by value."""
from dv.runner import Task
from . import spankey as K, spankey_rt as B
def proof_tasks(tier):
    return [Task("SpanId.roundtrip", K.id_roundtrip), Task("SpanId.equality", K.id_equality), Task("SpanId.arguments", K.id_arguments), Task("generate", K.generated),
            *[Task(f"SpanKey.roundtrip.{f}", K.key_roundtrip(f)) for f in ("text", "bytes", "key()", "document")],
            *[Task(f"SpanKey.equality.{w}", K.key_equality(w)) for w in ("key", "text")]] + \
           [Task(f"SpanId.rejects.{k}", K.rejects(k)) for k in ("int", "bytes", "hex")] + [Task(f"SpanKey.rejects.{k}", K.key_rejects(k), branch_ms=300) for k in ("bytes", "hex")]
TRUSTED = ["int.to_bytes/from_bytes, hexadecimal formatting and int(text, 16), uuid.UUID's byte, hexadecimal and text forms are inverse to each other, with the documented lengths, ranges and errors",
           "pydantic: a model field is validated by its class's plain validator, written by its plain serializer; a UUID field is written as and read from its text form", "hash is a function of the value"]
ASSUMPTIONS = ["what int(text, 16) and uuid.UUID themselves accept (0x, underscores, surrounding blanks, braces, urn:) is not restricted further by the property"]
RULE = "boundary and seeded random ids through every encoding, pairwise equality and hashing; malformed bytes and texts (lengths 0-40, signs, separators, non-hexadecimal characters)"
RUNTIME_S = {"quick": 6, "thorough": 120}
def run_scenario(s): return B.run(s)
def exhaustive(tier): return B.exhaustive(tier)
def scenarios(tier, rnd): return B.scenarios(rnd)
