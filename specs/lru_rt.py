"""Run-time contract of LRUCache against an ordered list of entries (most recently used first)."""
import itertools


def run(s):
    from ekosis.cacheing import LRUCache
    n = s["size"]
    c, m = LRUCache(n), []                       # m: [(key, value)], most recently used first
    def find(k): return next((i for i, e in enumerate(m) if e[0] == k), None)
    val = 0
    for step, op in enumerate(s["ops"]):
        name, k = op[0], op[1] if len(op) > 1 else None
        i = find(k)
        what = f"step {step} {op} of {s['ops']} (capacity {n})"
        try:
            if name == "set":
                val += 1
                v = None if val % 7 == 0 else val
                c[k] = v
                if i is not None: del m[i]
                m.insert(0, (k, v))
                del m[n:]
            elif name == "getitem":
                try: got = ("v", c[k])
                except KeyError: got = ("absent",)
                want = ("absent",) if i is None else ("v", m[i][1])
                if got != want: return f"{what}: [] gives {got}, expected {want}"
                if i is not None: m.insert(0, m.pop(i))
            elif name == "get":
                got = c.get(k, "dflt")
                want = "dflt" if i is None else m[i][1]
                if got != want: return f"{what}: get gives {got}, expected {want}"
                if i is not None: m.insert(0, m.pop(i))
            elif name == "peek":
                got = c.peek(k, "dflt")
                want = "dflt" if i is None else m[i][1]
                if got != want: return f"{what}: peek gives {got}, expected {want}"
            elif name == "del":
                try: del c[k]
                except KeyError:
                    if i is not None: return f"{what}: a present key is reported as absent"
                if i is not None: del m[i]
            elif name == "popitem":
                got = c.pop_item(k, "dflt")
                want = "dflt" if i is None else m.pop(i)[1]
                if got != want: return f"{what}: pop_item gives {got}, expected {want}"
            elif name == "pop":
                got = c.pop()
                want = m.pop(0) if m else None
                if got != want: return f"{what}: pop gives {got}, expected {want}"
            elif name == "clear":
                c.clear(); m = []
        except Exception as e:
            return f"{what}: {type(e).__name__}: {e}"
        try:
            if len(c) != len(m): return f"{what}: {len(c)} entries, expected {len(m)}"
            for nm, got, want in (("items", list(c.items()), m), ("keys", list(c.keys()), [e[0] for e in m]), ("values", list(c.values()), [e[1] for e in m]), ("iteration", list(c), [e[0] for e in m])):
                if got != want: return f"{what}: {nm} gives {got}, expected {want}"
            for x in s.get("keys", range(4)):
                if (x in c) != (find(x) is not None): return f"{what}: membership of {x} is wrong"
        except Exception as e:
            return f"{what}: {type(e).__name__}: {e} afterwards"
    return None


OPS1 = ("set", "getitem", "get", "peek", "del", "popitem")


def exhaustive(tier):
    al = [["set", k] for k in range(3)] + [["getitem", 0], ["getitem", 1], ["del", 0], ["del", 1], ["popitem", 2], ["pop"], ["clear"], ["get", 2]]
    for n in (1, 2, 3):
        for ln in range(1, 5 if tier == "quick" else 6):
            for seq in itertools.product(al, repeat=ln): yield {"size": n, "ops": [list(x) for x in seq]}


def scenarios(rnd):
    while True:
        n, nk = rnd.randint(1, 6), rnd.randint(1, 9)
        ks = list(range(nk))
        if rnd.random() < .2: ks[0] = None
        ops = []
        for _ in range(rnd.randint(1, 60)):
            r = rnd.random()
            k = rnd.choice(ks)
            if r < .45: ops.append(["set", k])
            elif r < .92: ops.append([rnd.choice(OPS1[1:]), k])
            elif r < .97: ops.append(["pop"])
            else: ops.append(["clear"])
        yield {"size": n, "ops": ops, "keys": ks}
