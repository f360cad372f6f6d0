"""Histories of the Collector: generated, run, and judged by CollectorTrace."""
import json
import random
import re

# the kinds of GenCollector, in the order of namedPdus in gen/col.go
NAMES = ["a1", "a2", "b1", "b2", "b3", "r1", "r2", "s1", "t2", "n1", "z0", "o3", "u1", "x1"]


def op(o, p=0, n=0):
    return {"o": o, "p": p, "n": n}


def edges(c, config):
    """The transitions of a model that prints them."""
    out = c.tlc("GenCollector.tla", config + ".cfg", workers=1)
    if "No error has been found" not in out:
        raise RuntimeError(out[-2000:])
    gen, distinct = c.counts(out)
    c.states += distinct
    c.transitions += gen
    c.models.append({"model": config, "states": distinct, "transitions": gen})
    return [tuple(re.sub(r"\s", "", x) for x in e)
            for e in re.findall(r'<<\s*"EDGE",\s*"(.*?)",\s*"(.*?)",\s*"(.*?)"\s*>>', out, re.S)]


def tours(es, seed, limit=24):
    """Walks from the initial state that together take every transition."""
    rnd = random.Random(seed)
    succ, todo = {}, {}
    for f, a, t in es:
        succ.setdefault(f, []).append((a, t))
        todo.setdefault(f, set()).add((a, t))
    start = "<<FALSE,{}>>"
    left = sum(len(x) for x in todo.values())
    while left:
        s, walk = start, []
        while len(walk) < limit:
            n = todo.get(s)
            if n:
                a, t = rnd.choice(sorted(n))
                n.discard((a, t))
                left -= 1
                walk.append(a)
                s = t
                continue
            # the nearest state with something to do
            seen, q, found = {s: None}, [s], None
            while q and not found:
                nq = []
                for x in q:
                    for a, t in succ.get(x, ()):
                        if t not in seen:
                            seen[t] = (x, a)
                            nq.append(t)
                            if todo.get(t):
                                found = t
                                break
                    if found:
                        break
                q = nq
            if not found:
                if left and s == start:
                    raise RuntimeError("unreachable states")
                break
            path, x = [], found
            while seen[x]:
                path.append(seen[x][1])
                x = seen[x][0]
            walk += reversed(path)
            s = found
        yield walk


def named():
    """The TPDUs of GenCollector."""
    l = []

    def add(ty, toa, addr, ref, n, q):
        l.append({"id": len(l) + 1, "ty": ty, "toa": toa, "addr": [addr], "udh": [{"id": 0, "d": [ref, n, q]}]})
    add(0, 145, 49, 1, 2, 1), add(0, 145, 49, 1, 2, 2)
    add(0, 145, 49, 1, 3, 1), add(0, 145, 49, 1, 3, 2), add(0, 145, 49, 1, 3, 3)
    add(0, 145, 49, 2, 2, 1), add(0, 145, 49, 2, 2, 2)
    add(3, 145, 49, 1, 2, 1), add(0, 129, 49, 1, 2, 2), add(0, 145, 50, 1, 2, 1)
    add(0, 145, 49, 1, 2, 0), add(0, 145, 49, 1, 2, 3), add(5, 145, 49, 1, 2, 1), add(0, 145, 49, 1, 1, 1)
    add(0, 145, 49, 1, 2, 1)
    return l


def tour_file(c, kind, seed, d, drop=()):
    """Histories that take every transition of GenCollector, as calls to make."""
    f = c.path("tours%d.nd" % d)
    n = 0
    rnd = random.Random(seed)
    with open(f, "w") as h:
        for i, w in enumerate(tours(edges(c, "GenCollector" if d else "GenCollector0"), seed)):
            ops = []
            for a in w:
                if a in drop:
                    continue
                if a == "wait":
                    ops.append(op("sleep", n=1000))
                elif a == "close":
                    ops.append(op("close"))
                else:
                    # a1 comes with two contents
                    ops.append(op("collect", p=15 if a == "a1" and rnd.random() < 0.4 else NAMES.index(a) + 1))
                ops.append(op("pipes"))
            h.write(json.dumps({"k": kind, "a": {
                "d": 1000 * d, "handler": i % 4 != 3, "real": False, "settle": True, "hops": [],
                "pdus": named(), "clients": [ops]}}) + "\n")
            n += 1
    return f


def keep(recs, n=3):
    out = []
    for r in recs[len(recs) // 3:][:n]:
        s = json.dumps(r)
        out.append(json.loads(s) if len(s) < 6000 else {"k": r["k"], "text": s[:3000]})
    return out


def reduced(r):
    """The same history without the calls that were rejected or may have to be."""
    a = json.loads(json.dumps(r["a"]))
    errs = [e["err"] for e in r["r"]["ev"] if e["op"] == "collect" and e["c"] == 0]
    ops, i, seen, shut = [], 0, set(), False
    for o in a["clients"][0]:
        if o["o"] == "close":
            shut = True
        if o["o"] == "collect":
            i += 1
            p = a["pdus"][o["p"] - 1]
            key = json.dumps([p["ty"], p["toa"], p["addr"], p["udh"]])
            faulty = p["ty"] not in (0, 3) or any(
                e["id"] in (0, 8) and (len(e["d"]) < 2 or not 1 <= e["d"][-1] <= e["d"][-2]) for e in p["udh"])
            if shut or faulty or key in seen or i > len(errs) or errs[i - 1] != "":
                continue
            seen.add(key)
        ops.append(o)
    a["clients"] = [ops]
    return {"k": r["k"], "a": a}


def blamed(c, bad):
    """Those histories that go wrong for what is to be rejected: those that do
    not if that is left out."""
    out = []
    for r in bad[:40]:
        if r["x"]:
            out.append(r)
            continue
        w = reduced(r)
        if w["a"] != r["a"]:
            again = c.one(w, tool="vcol")
            if not c.histories([again]):
                out.append(r)
    return out


# timeouts of the models whose transitions are taken
TIMEOUTS = {"C07": [0], "C08": [0, 2], "C09": [2, 0]}


def collector(prop, n, sample):
    """Model derived, short and random histories, settled after each step."""
    def f(c):
        from check import SEED, THOROUGH
        k = 10 if THOROUGH else 1
        kind = "col" + prop[1:]
        plan = [(kind, k * n, k * sample)]
        recs = []
        for d in TIMEOUTS[prop]:
            # what close drops is looked at elsewhere
            recs += c.execute("vcol", plan, infile=tour_file(c, kind, SEED, d, drop=("close",) if prop == "C07" else ()))
            plan = [(kind, 0, 0, 0)]
        if prop == "C09":
            # timers that fire with the lock held
            recs += c.execute("vcol", [("colf", 0, 0)])
        c.samples += keep(recs)
        bad = c.histories(recs)
        c.report(blamed(c, bad) if prop == "C08" else bad)
    return f


def concurrent(n):
    """Histories of concurrent clients, and of timers that fire with the lock
    held, with and without the race detector."""
    def f(c):
        from check import THOROUGH
        k = 10 if THOROUGH else 1
        recs = c.execute("vcol", [("colc", k * n, k * n), ("colf", 0, 0)])
        recs += c.execute("vcol-race", [("colc", k * n, k * n), ("colf", 0, 0)])
        c.samples += keep(recs)
        c.report(c.histories(recs))
    return f


def parallel(*plan, shards=28):
    """Calls of concurrent clients with the race detector, in many processes:
    the first uses of the tables are in each."""
    def f(c):
        from check import THOROUGH
        k = 10 if THOROUGH else 1
        recs = c.execute("vgen-race", [(p[0], k * p[1], k * p[1]) for p in plan], shards=shards)
        c.samples += keep(recs)
        c.report(c.conform(recs))
    return f


def replay(c, r):
    print(json.dumps(r, indent=1)[:20000])
    if r["x"] == "":
        print("VIOLATION property=%s: no behaviour of the specification has this history" % c.prop if c.histories([r]) else "conforms")
    tool = "vcol-race" if r["x"] == "race" else "vcol"
    again = c.one({"k": r["k"], "a": r["a"]}, tool=tool)
    bad = bool(again["x"]) or bool(c.histories([again]))
    print("run again:", "VIOLATION" if bad else "conforms")
    return 1 if bad or r["x"] == "" else 0
