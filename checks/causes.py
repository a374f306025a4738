"""P27, second part: what a failing operation of a number type says."""
import random
import vlib
from checks import c_dec, c_ints
from checks.num import big


def run(c):
    r = random.Random("causes%d" % c.seed)
    types = [k for k in list(c_ints.S) + list(c_ints.U) if k not in ("ui64", "um64")]
    zero = lambda v: not v.strip("-0.")
    cases = []
    for _ in range(c.pick(3000, 30000)):
        k = r.choice(types)
        o = r.choice(c_ints.BIN)
        a = c_ints.operand(r, k)
        b = 0 if o in ("/", "mod") and r.random() < .4 else c_ints.partner(r, k, o, a)
        cases.append(({"ctx": k, "kind": "bin", "o": o}, [str(a), str(b)]))
    for k in types:
        lo, hi = c_ints.limits(k)
        for v in [lo, hi, 0, -1, -2, 3, 200, 40, 6]:
            if lo <= v <= hi:
                cases += [({"ctx": k, "kind": "una", "o": o}, [str(v)]) for o in ("!",) + (("-", "+") if k in c_ints.S else ())]
        for f in ("sum", "product", "avg") + (("abs",) if k in c_ints.S else ()):
            for _ in range(c.pick(20, 200)):
                cases.append(({"ctx": k, "kind": "fn", "o": f}, [str(c_ints.operand(r, k)) for _ in range(1 if f == "abs" else r.randint(1, 5))]))
    for _ in range(c.pick(3000, 30000)):
        o = r.choice(c_dec.BIN)
        a, b = c_dec.pair(r, o)
        if o in ("/", "mod") and r.random() < .3:
            b = r.choice(["0", "0.0", "-0.000", "0.0000000000000000000000000000"])
        cases.append(({"ctx": "dec", "kind": "bin", "o": o}, [a, b]))
    for _ in range(c.pick(300, 3000)):
        cases.append(({"ctx": "dec", "kind": "fn", "o": r.choice(["sum", "product", "avg"])}, [c_dec.number(r) for _ in range(r.randint(1, 4))]))
    for j in range(40):
        cases.append(({"ctx": "dec", "kind": "una", "o": "!"}, [str(j)]))
    recs = []
    for x in c.real([{"ctx": m["ctx"], "call": m["o"], "as": m["kind"], "args": [a], "j": j} for j, (m, a) in enumerate(cases)]):
        m, a = cases[x["j"]]
        y = x["res"][0] if isinstance(x["res"], list) else {"k": x["res"], "e": ""}
        recs.append(dict(m, zero=len(a) > 1 and zero(a[1]), neg=a[0].startswith("-") and not zero(a[0]), k=y["k"], e=y["e"], prog=[], text="%s %s" % (m["o"], a)))
    progs, cases = [], []
    for j in range(c.pick(3000, 30000)):
        k = r.choice(types)
        p, x, vs = c_ints.program(r, k, r.randint(2, 4))
        progs.append((k, p, x, vs))
        cases.append({"ctx": k, "text": x, "set": [[n, str(v)] for n, v in vs], "j": j})
    for x in c.real(cases):
        k, p, t, vs = progs[x["j"]]
        y = x["res"][0] if isinstance(x["res"], list) else {"k": x["res"], "e": "?"}
        recs.append({"ctx": k, "kind": "prog", "o": "", "zero": False, "neg": False, "k": y["k"], "e": y["e"], "prog": p, "text": "%s with %s" % (t, vs)})
    for e in sorted({x["e"] for x in recs}):
        c.count("failures_" + (e or "none"), sum(x["e"] == e for x in recs))
    r.shuffle(recs)
    tr = c.path("causes.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceCauses", tr)
    c.count("traces_validated_against_impl", len(recs))
    for i, what in bad:
        x = recs[i]
        c.violation("cause:%s:%s" % (x["ctx"], x["o"]), "%s: %s ends %s %s" % (x["ctx"], x["text"], x["k"], x["e"]), x)
    c.log("TraceCauses: %d records, %d rejected" % (len(recs), len(bad)))
