"""P08, P09: histories of registrations, variable changes, clones and evaluations."""
import json, os, random
import vlib
from vlib import chars as ch, text
from checks.c_expr import replay


def val(n):
    return [["n", ch(str(n)), 0]]


def setvar(i, n, v): return {"op": "setvar", "i": i, "name": ch(n), "val": val(v)}
def addconst(i, n, v): return {"op": "addconst", "i": i, "name": ch(n), "val": val(v)}
def addfn(i, n, al, id, own=None): return {"op": "addfn", "i": i, "name": ch(n), "own": ch(own or n), "aliases": [ch(a) for a in al], "id": ch(id)}
def adduna(i, n, al, id, prefix=True): return dict(addfn(i, n, al, id), op="adduna", prefix=prefix)
def addbin(i, n, al, id, prec=1, left=True): return dict(addfn(i, n, al, id), op="addbin", prec=prec, left=left)
def ev(i, t): return {"op": "eval", "i": i, "text": ch(t)}
def get(i, n): return {"op": "get", "i": i, "name": ch(n)}
def clone(i): return {"op": "clone", "i": i}


CFG = {"implicit": True, "custom": False}


def menus(prop, c):
    if prop == "P08":
        m1 = [setvar(1, "x", 1), setvar(1, "X", 2), setvar(1, "x", 3), addconst(1, "X", 4), addconst(1, "y", 5), addconst(1, "Y", 6), setvar(1, "y", 7),
              setvar(1, " ", 8), addconst(1, "a b", 9), get(1, "Y")]
        m2 = [addfn(1, "f", [], "f1"), addfn(1, "g", ["F"], "f2"), addfn(1, "h", ["k", "g"], "f3"), addfn(1, "G", [], "f4", own="zz"), addfn(1, "k", ["h", "K"], "f5"),
              addfn(1, "", ["q"], "f6"), addfn(1, "q", ["w", "w"], "f7"), get(1, "K"), setvar(1, "f", 1)]
        m3 = [addbin(1, "+", ["plus"], "b1"), adduna(1, "+", ["plus"], "u1"), addbin(1, "PLUS", [], "b2"), addbin(1, "-", ["x", "+"], "b3"), adduna(1, "neg", ["x", "Plus"], "u2"),
              addbin(1, "X", ["-"], "b4"), adduna(1, "x y", [], "u3"), adduna(1, "É", ["é"], "u4"), get(1, "é"), addfn(1, "plus", [], "f1")]
        m4 = [clone(1), setvar(1, "x", 1), setvar(2, "x", 2), addconst(1, "x", 3), addconst(2, "X", 4), addfn(1, "f", ["g"], "f1"), addfn(2, "g", ["f"], "f2"), get(2, "x")]
        L = "a_rather_long_name_of_a_variable"
        m5 = [setvar(1, L, 1), setvar(1, L, 2), setvar(1, L.upper(), 3), setvar(1, L + "2", 4), addconst(1, L, 5), addfn(1, L, [L + "2"], "f1"), addfn(1, L + "2", [], "f2"), get(1, L)]
        return [(m5, c.pick(4, 6)), (m1, c.pick(5, 6)), (m2, c.pick(5, 6)), (m3, c.pick(4, 6)), (m4, c.pick(5, 7))]
    m1 = [setvar(1, "x", 1), setvar(1, "X", 2), addconst(1, "k", 3), addconst(1, "K", 4), ev(1, "x"), ev(1, "2x+k"), ev(1, "K*X"), addbin(1, "+", [], "b1"), addbin(1, "*", ["times"], "b2", 2)]
    m2 = [addfn(1, "f", ["x"], "f1"), setvar(1, "x", 1), ev(1, "x"), ev(1, "x(1, 2)"), ev(1, "f()"), ev(1, "f(x"), addfn(1, "x", [], "f2")]
    m3 = [clone(1), setvar(1, "x", 1), setvar(2, "x", 2), ev(1, "-x"), ev(2, "-x"), adduna(1, "-", [], "u1"), adduna(2, "-", [], "u2", False), ev(2, "x-"), addconst(2, "x", 3)]
    return [(m1, c.pick(4, 6)), (m2, c.pick(5, 6)), (m3, c.pick(5, 6))]


def run(c):
    prop = c.prop
    c.build()
    c.assumptions.append("registered functions and values are symbolic, so their identity is visible; names are validated in builds with debug assertions only")
    for k, (ops, n) in enumerate(menus(prop, c)):
        menu, out = c.path("menu%d.json" % k), c.path("hist%d" % k)
        json.dump({"cfg": CFG, "ops": ops}, open(menu, "w"))
        st = c.model("MCContext", ["Sound", "Emitted"], consts={"MaxLen": n, "Emit": True}, env={"VH_MENU": menu, "VH_OUT": out}, properties=["Atomic"], spec="Spec")
        h, steps = replay(c, ["histreplay", out], "history")
        if h == 0:
            raise vlib.ToolError("no histories")
        c.log("MCContext, %d operations: %d states, all %d histories of %d operations replayed" % (len(ops), st["distinct"], h, n))
        os.remove(out)
    nh, ln = c.pick((300, 40), (6000, 60))
    evals = 12 if prop == "P08" else 55
    for b in range(0, nh, 300):
        tr = c.path("h.tr")
        c.harness("hist", c.seed * 1000003 + b, min(300, nh - b), ln, evals, out=tr)
        lines, bad, _ = c.validate("TraceContext", tr, invariants=("Sound",), groups=lambda l: '"op":"new"' in l)
        c.count("traces_validated_against_impl", sum('"op":"new"' in l for l in lines))
        c.count("recorded_operations", len(lines))
        refused = sum('"res":{"k":"err"' in l for l in lines)
        c.count("recorded_refusals", refused)
        start, seen = 0, set()
        starts = [i for i, l in enumerate(lines) if '"op":"new"' in l]
        for i, what in bad:
            s = max(x for x in starts if x <= i)
            if s in seen:
                continue
            seen.add(s)
            hist = [json.loads(x) for x in lines[s:i + 1]]
            r = {k: v for k, v in hist[-1].items() if k != "after"}
            c.violation("history", "after %d operations, %s: the code gives %s" % (i - s, what, json.dumps(r, ensure_ascii=False)[:900]), hist)
        for l in lines[5:len(lines):len(lines) // 3 + 1]:
            c.sample({k: v for k, v in json.loads(l).items() if k != "after"})
        c.log("TraceContext: %d histories, %d operations, %d refused, %d rejected" % (len(starts), len(lines), refused, len(bad)))
        if c.left() < 60:
            break
    if prop == "P09":
        from checks import c_real
        c_real.purity(c)
