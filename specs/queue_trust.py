TRUSTED = [
    "SQL store contract (specs/sqlmodel.py): count/order_by/limit/all, filter by key or record ids, max/min, bulk insert, delete, commit, close over one SQLite table behave as on a sequence of rows ordered by record id",
    "json.loads and the queued pydantic type are functions of the stored string, and parsing what model_dump_json wrote gives an equal object",
    "span key encodings are inverse (proved under C12)",
]
ASSUMPTIONS = ["page_size >= 1", "queue operations of one queue do not overlap (they contain no suspension point: checked by the absence of await inside the methods under contract)",
               "integers are mathematical (exact for Python; SQLite record ids assumed within 64 bits)", "the queue file is not touched by anybody else"]
