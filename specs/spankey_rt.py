"""Run-time contracts of span ids and span keys."""
import uuid

B64 = [0, 1, 15, 16, 255, 256, 0x80, 0x8000, 1 << 31, 1 << 32, (1 << 56) - 1, 1 << 56, (1 << 60) - 1, 1 << 60, 1 << 63, (1 << 63) - 1, (1 << 64) - 1, (1 << 64) - 256, 0x0102030405060708, 0xdeadbeef]
B128 = [0, 1, 255, 1 << 64, (1 << 64) - 1, 1 << 120, (1 << 120) - 1, 1 << 127, (1 << 128) - 1, 0x0102030405060708090a0b0c0d0e0f10]


def run(s):
    from ekosis.data_transfer_objects import SpanKey, RequestDTO
    from ekosis.data_transfer_objects.span_id import SpanId
    def key(t, n): return SpanKey(trace_id=uuid.UUID(int=t), span_id=SpanId(int_=n))
    k = s["kind"]
    if k == "key":
        t, n = s["t"], s["n"]
        a, i = key(t, n), SpanId(int_=n)
        if i.value != n: return f"SpanId(int_={n}).value is {i.value}"
        for nm, f in (("bytes", lambda: SpanId(bytes_=i.bytes)), ("hex", lambda: SpanId(hex_=i.hex)), ("text", lambda: SpanId(hex_=str(i)))):
            try: r = f()
            except Exception as e: return f"span id {n:#x} does not come back from {nm}: {e!r}"
            if r.value != n or not r == i or hash(r) != hash(i): return f"span id {n:#x} comes back from {nm} as {r!r}"
        for nm, f in (("bytes", lambda: SpanKey.from_bytes(a.bytes)), ("key()", lambda: SpanKey.from_bytes(a.key())), ("text", lambda: SpanKey.from_hex(str(a))),
                      ("JSON", lambda: SpanKey.model_validate_json(a.model_dump_json())), ("dump", lambda: SpanKey.model_validate(a.model_dump())),
                      ("JSON dump", lambda: SpanKey.model_validate(a.model_dump(mode="json"))),
                      ("request", lambda: RequestDTO.model_validate_json(RequestDTO(route_key="r", span_key=a, data={}).model_dump_json()).span_key),
                      ("copy", lambda: SpanKey(trace_id=a.trace_id, span_id=a.span_id))):
            try: r = f()
            except Exception as e: return f"span key {a} does not come back from {nm}: {e!r}"
            if r.trace_id.int != t or r.span_id.value != n: return f"span key {a} comes back from {nm} as {r}"
            if not r == a or r != a: return f"span key {a} does not equal itself after {nm}"
            if hash(r) != hash(a): return f"span key {a} hashes differently after {nm}"
        if len(a.bytes) != 24: return f"bytes of {a} have length {len(a.bytes)}"
        if not a == str(a): return f"span key {a} does not equal its text form"
        return None
    if k == "pair":
        a, b = key(*s["a"]), key(*s["b"])
        want = s["a"] == s["b"]
        if (a == b) != want: return f"{a} == {b} is {not want}"
        if (a != b) == want: return f"{a} != {b} is {want}"
        if (a == str(b)) != want: return f"{a} == text of {b} is {not want}"
        i, j = SpanId(int_=s["a"][1]), SpanId(int_=s["b"][1])
        if (i == j) != (s["a"][1] == s["b"][1]): return f"{i} == {j} is wrong"
        return None
    if k == "int":
        try: r = SpanId(int_=s["v"])
        except Exception: return f"{s['v']:#x} is refused" if 0 <= s["v"] < 1 << 64 else None
        return None if 0 <= s["v"] < 1 << 64 and r.value == s["v"] else f"span id of {s['v']} is {r.value}"
    if k == "bytes":
        b = bytes.fromhex(s["v"])
        for nm, f, n in (("SpanId", lambda: SpanId(bytes_=b), 8), ("SpanKey", lambda: SpanKey.from_bytes(b), 24)):
            try: r = f()
            except Exception as e:
                if len(b) == n: return f"{nm} refuses {n} bytes: {e!r}"
                continue
            if len(b) != n or r.bytes != b: return f"{nm} made from {b!r} is {r!r}"
        return None
    if k == "text":
        x = s["v"]
        try: r = SpanId(hex_=x)
        except Exception: r = None
        def ok(x):
            if len(x) != 16: return None
            try: v = int(x, 16)
            except ValueError: return None
            return v if 0 <= v < 1 << 64 else None
        if r is not None and r.value != ok(x): return f"SpanId made from {x!r} is {r.value}"
        try: r = SpanKey.from_hex(x)
        except Exception: return None
        for p, c, q in [(x[:i], x[i], x[i + 1:]) for i in range(len(x))]:
            if c != ":" or ok(q) is None: continue
            try: u = uuid.UUID(p)
            except ValueError: continue
            if u == r.trace_id and ok(q) == r.span_id.value: return None
        return f"SpanKey made from {x!r} is {r!r}"
    if k == "gen":
        a, b = SpanKey.generate(), SpanKey.generate()
        if not 0 <= a.span_id.value < 1 << 64: return f"generated {a}"
        return "the same span key was generated twice" if a == b else None
    return None


def exhaustive(tier):
    for t in B128:
        for n in B64: yield {"kind": "key", "t": t, "n": n}
    ks = [(t, n) for t in B128[:4] + B128[-2:] for n in B64[:4] + B64[-4:]]
    for a in ks:
        for b in ks[::5] + [a]: yield {"kind": "pair", "a": list(a), "b": list(b)}
    M = (1 << 61) - 1                                        # values with the same hash, or the same low or high bits
    for n in B64:
        for m in (n + M, n - M, n + 7 * M, n ^ 1, n ^ (1 << 32), n ^ (1 << 63), n ^ (1 << 53), n & 0xffffffff, n >> 32):
            if 0 <= m < 1 << 64: yield {"kind": "pair", "a": [5, n], "b": [5, m]}; yield {"kind": "pair", "a": [n, 5], "b": [m, 5]}
    for v in B64 + [-v for v in B64] + [(1 << 64) + v for v in B64]: yield {"kind": "int", "v": v}
    for n in range(0, 41): yield {"kind": "bytes", "v": "5a" * n}
    T = ["0" * 16, "f" * 16, "F" * 16, "-000000000000001", "+000000000000001", "g" * 16, "", "1", "f" * 15, "f" * 17, "0x00000000000001", " 00000000000000f", ":" * 16, "-fffffffffffffff", "٠" * 16]
    for x in T: yield {"kind": "text", "v": x}
    us = [str(uuid.UUID(int=v)) for v in B128] + ["%032x" % 5, "", "0" * 31, "0" * 33, "urn:uuid:" + str(uuid.UUID(int=7)), "zz"]
    for u in us:
        for x in T:
            for sep in (":", "", "::", "-"): yield {"kind": "text", "v": u + sep + x}
    yield {"kind": "gen"}


def scenarios(rnd):
    while True:
        r = rnd.random()
        bits = lambda n: rnd.getrandbits(rnd.choice([1, 4, 8, n // 2, n - 8, n - 4, n - 1, n]))
        if r < 0.5: yield {"kind": "key", "t": bits(128), "n": bits(64)}
        elif r < 0.7:
            a = [bits(128), bits(64)]; b = list(a)
            if rnd.random() < .7: b[rnd.randrange(2)] ^= 1 << rnd.randrange(64)
            yield {"kind": "pair", "a": a, "b": b}
        elif r < 0.8: yield {"kind": "int", "v": bits(66) * rnd.choice([1, 1, -1])}
        elif r < 0.9: yield {"kind": "bytes", "v": rnd.randbytes(rnd.choice([0, 7, 8, 9, 16, 23, 24, 25, 32])).hex()}
        else:
            x = "%016x" % bits(64)
            if rnd.random() < .7:
                i = rnd.randrange(17); x = x[:i] + rnd.choice("-+ _:gx0") + x[i + rnd.randrange(2):]
            if rnd.random() < .6: x = str(uuid.UUID(int=bits(128))) + rnd.choice([":", ":", ":", "", "::"]) + x
            yield {"kind": "text", "v": x}
