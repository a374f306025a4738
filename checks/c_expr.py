"""P01-P07, P17: texts, tokens, structure and value of expressions.

(a) TLC enumerates every token sequence (or text) over small alphabets, proves the conversion machine
    equal to the grammar on each, and writes what each means; the harness replays all of them in the
    real tokenizer, conversion and evaluator with the symbolic number type.
(b) The harness records random contexts, operator tables and long texts; TLC validates each record
    against the specification.
"""
import json, os, random
import vlib
from vlib import text

ch = vlib.chars


def binop(i, name, prec, left=True, aliases=(), fails=False):
    return {"fails": fails, "id": ch("b%s" % i), "name": ch(name), "aliases": [ch(a) for a in aliases], "prec": prec, "left": left}


def unary(i, name, prefix=True, aliases=(), fails=False):
    return {"fails": fails, "id": ch("u%s" % i), "name": ch(name), "aliases": [ch(a) for a in aliases], "prefix": prefix}


def func(i, name, aliases=(), fails=False):
    return {"id": ch("f%s" % i), "name": ch(name), "aliases": [ch(a) for a in aliases], "fails": fails}


def ctx(bins, unas=(), funcs=(), vars=(), consts=(), implicit=False, complex=False, custom=False):
    return {"implicit": implicit, "complex": complex, "custom": custom, "vars": [ch(v) for v in vars], "consts": [ch(v) for v in consts],
            "funcs": list(funcs), "bins": list(bins), "unas": list(unas)}


KINDS = {"num": "num", "var": "var", "const": "const", "fn": "fn", "bin": "bin", "una": "una", "open": "open", "close": "close", "comma": "comma",
         "unk": "unk"}


def tok(s):
    """`bin +` etc.; brackets and comma by themselves; # = a number telling its position"""
    if s in "([{":
        return ["open", [s], 0]
    if s in ")]}":
        return ["close", [s], 0]
    if s == ",":
        return ["comma", [","], 0]
    if s == "#":
        return ["num", ["#"], 0]
    if s == "argc":
        return ["argc", [], 1]
    k, n = s.split(" ")
    return [k, ch(n), 0]


ARITH = [binop(0, "+", 1), binop(1, "*", 2), binop(2, "^", 3, False), binop(3, "-", 1)]


def rtable(r, names):
    return [binop(i, n, r.randrange(3), r.random() < .6) for i, n in enumerate(names)]


def token_models(prop, c, r):
    """(contexts with their alphabets, MaxLen, MaxBad) per property"""
    T = lambda *a: [tok(x) for x in a]
    if prop == "P01":
        std = [ctx(ARITH[:3]), ctx([binop(0, "+", 1), binop(1, "*", 1, False), binop(2, "^", 1)])]
        rnd = [ctx(rtable(r, ["+", "*", "^"])) for _ in range(c.pick(3, 10))]
        m = [(x, T("#", "bin +", "bin *", "bin ^", "(", ")")) for x in std + rnd]
        m.append((ctx(ARITH[:2]), T("#", "bin +", "bin *", "(", ")", "[", "]", "{", "}")))
        return [(m, c.pick(9, 11), 2), ([(ctx(rtable(r, ["+", "*", "^", "-"])), T("#", "bin +", "bin *", "bin ^", "bin -")) for _ in range(c.pick(2, 8))], c.pick(9, 11), 0)]
    if prop == "P02":
        full = T("#", "var x", "var nope", "const PI", "fn f", "bin +", "bin ?", "una -", "una !", "(", ")", "[", "]", ",", "unk #", "argc")
        m = [(ctx(ARITH, [unary(0, "-"), unary(1, "!", False)], [func(0, "f")], ["x"], ["PI"], implicit=i, custom=k), full)
             for i in (False, True) for k in (False, True)]
        small = T("#", "fn f", "bin +", "una -", "una !", "(", ")", ",")
        m2 = [(ctx(ARITH, [unary(0, "-"), unary(1, "!", False)], [func(0, "f")], implicit=i), small) for i in (False, True)]
        # names under the kinds of other names
        cross = T("#", "var x", "const x", "fn x", "bin x", "una x", "var PI", "const PI", "fn PI", "var f", "const f", "fn f", "bin f", "una f", "var -", "bin -", "una -",
                  "bin !", "una !", "bin +", "una +", "fn +", "(", ")")
        m3 = [(ctx(ARITH[:2], [unary(0, "-"), unary(1, "!", False)], [func(0, "f")], ["x"], ["PI"], implicit=i), cross) for i in (False, True)]
        # brackets of all kinds around calls in calls
        m4 = [(ctx(ARITH[:1], [], [func(0, "f")], custom=k), T("#", "fn f", "(", ")", "]", "[")) for k in (False, True)]
        m5 = [(ctx(ARITH[:1], [], [func(0, "f")]), T("#", "fn f", "(", ")", "]", "[", ","))]
        return [(m, c.pick(4, 5), c.pick(4, 4)), (m2, c.pick(6, 8), c.pick(5, 6)), (m3, c.pick(3, 4), 3), (m4, c.pick(9, 11), c.pick(3, 4)), (m5, c.pick(9, 11), 3)]
    if prop == "P03":
        m = [(ctx([binop(0, "+", 1), binop(1, "^", 2, False)], [unary(0, "-")], [func(0, "f"), func(1, "g")], implicit=i), T("#", "fn f", "(", ")", ",", "bin +"))
             for i in (False, True)]
        m2 = [(ctx([binop(0, "+", 1), binop(1, "*", 2)], [unary(0, "-"), unary(1, "!", False)], [func(0, "f"), func(1, "g")], custom=k),
               T("#", "fn f", "fn g", "(", ")", ",", "[", "]", "bin +", "una -", "una !")) for k in (False, True)]
        m3 = [(ctx([binop(0, "+", 1)], [], [func(0, "f")]), T("#", "fn f", "(", ")", ","))]
        return [(m, c.pick(10, 12), 3), (m3, c.pick(14, 18), 2), (m2, c.pick(7, 8), 3)]
    if prop == "P04":
        m = [(ctx([binop(0, "+", p), binop(1, "^", q, False)], [unary(0, "-"), unary(1, "!", False), unary(2, "~")], [func(0, "f")], ["x"]),
              T("#", "una -", "una ~", "una !", "bin +", "bin ^", "(", ")", "fn f")) for p, q in ((1, 2), (2, 1))]
        return [(m, c.pick(7, 8), 3)]
    if prop == "P05":
        m = [(ctx([binop(0, "+", p), binop(1, "*", q, l), binop(2, "^", 3, False)], [unary(0, "-"), unary(1, "!", False)], [func(0, "f")], ["x"], ["PI"], implicit=i),
              T("#", "var x", "const PI", "fn f", "(", ")", "bin +", "bin ^", "una -", "una !")) for i in (True, False) for p, q, l in ((1, 2, True),)]
        m2 = [(ctx([binop(0, "+", p), binop(1, "*", q, l), binop(2, "^", 2, False)], [], [func(0, "f")], ["x"], implicit=True),
               T("#", "var x", "fn f", "(", ")", "[", "]", "bin +", "bin ^", "bin *")) for p, q, l in ((1, 2, True), (2, 1, False), (1, 1, False))]
        m3 = [(ctx([binop(0, "+", 1)], [], [func(0, "f")], ["x"], implicit=True), T("#", "var x", "fn f", "(", ")", "bin +"))]
        return [(m, c.pick(6, 7), 3), (m2 + m3, c.pick(7, 8), 2)]
    if prop == "P17":
        m = [(ctx(ARITH, [unary(0, "-"), unary(1, "!", False)], [func(0, "f"), func(1, "g")], ["x"], ["PI"], implicit=i, custom=k),
              T("#", "var x", "const PI", "fn f", "bin +", "bin *", "bin ^", "una -", "una !", "(", ")", ",", "[", "]")) for i in (False, True) for k in (False, True)]
        return [(m, c.pick(5, 6), 2)]
    if prop == "P27":
        m = [(ctx([binop(0, "+", 1, fails=a), binop(1, "^", 2, False)], [unary(3, "-", fails=b), unary(4, "!", False, fails=a)],
                  [func(5, "f"), func(6, "g", fails=True)], ["x"], implicit=i),
              T("#", "fn f", "fn g", "(", ")", ",", "bin +", "bin ^", "una -", "una !")) for a, b, i in ((False, True, False), (True, False, False))]
        m2 = [(ctx([binop(0, "+", 1), binop(1, "*", 2, fails=a), binop(7, "^", 3, False, fails=not a)], [], [func(5, "f"), func(6, "g", fails=True)], ["x"], implicit=i),
               T("#", "fn f", "fn g", "(", ")", ",", "bin +", "var x")) for a, i in ((False, False), (False, True), (True, True))]
        m3 = [(ctx([binop(k, n, p, l, fails=k == w) for k, (n, p, l) in enumerate((("+", 1, True), ("*", 2, True), ("^", 3, False)))]),
               T("#", "bin +", "bin *", "bin ^", "(", ")")) for w in range(3)]
        return [(m, c.pick(6, 7), 2), (m2, c.pick(7, 8), 2), (m3, c.pick(9, 11), 2)]
    return []


def raw_models(prop, c, r):
    S = lambda *a: [ch(x) for x in a]
    if prop == "P01":
        return [([(ctx(rtable(r, ["+", "*", "^", "%"])), S("#", "+", "*", "^", "%", "(", ")")) for _ in range(c.pick(2, 6))], c.pick(6, 8), 2)]
    if prop == "P02":
        m = [(ctx(ARITH, [unary(0, "-"), unary(1, "!", False)], [func(0, "f")], ["x"], ["PI"], implicit=i, complex=k),
              S("#", "x", "PI", "f", "+", "*", "-", "!", "(", ")", "[", "]", ",", "nope", "é")) for i, k in ((False, False), (True, True))]
        return [(m, c.pick(4, 5), c.pick(4, 4))]
    if prop == "P03":
        m = [(ctx(ARITH, [unary(0, "-")], [func(0, "f", ["ff"])], ["x"]), S("#", "f", "FF", "-", "*", "(", ")", ","))]
        return [(m, c.pick(7, 8), 3)]
    if prop == "P04":
        m = []
        for both, post in ((True, False), (False, True), (True, True)):
            u = [unary(0, "-", aliases=["neg"] if both else []), unary(1, "!", False, ["fact"] if post else []), unary(2, "%", not post)]
            m.append((ctx([binop(0, "-", 1), binop(1, "^", 3, False), binop(2, "%", 2)] + ([binop(3, "!", 2)] if both and post else []), u, [func(0, "f")], ["x"], ["e"]),
                      S("#", "x", "-", "!", "%", "^", "(", ")") + (S("f") if not post else S("e"))))
        # a constant and a variable with names of functions and operators
        m.append((ctx([binop(0, "-", 1), binop(1, "^", 3, False), binop(2, "x", 2)], [unary(0, "-"), unary(1, "!", False), unary(2, "g")], [func(0, "f"), func(1, "e")], ["x"], ["e", "f", "g"]),
                  S("#", "f", "e", "g", "x", "-", "!", "^", "(", ")")))
        return [(m, c.pick(6, 7), 3)]
    if prop == "P05":
        m = [(ctx([binop(0, "+", 1), binop(1, "*", 2), binop(2, "-", 1)], [unary(0, "-"), unary(1, "!", False)], [func(0, "f")], ["x"], ["e"], implicit=i, complex=k),
              S("#", "x", "e", "f", "(", ")", "-", "!") + (S("i") if k else S("[", "]"))) for i, k in ((True, False), (False, False), (True, True))]
        return [(m, c.pick(5, 6), 3)]
    if prop == "P07":
        m = [(ctx([binop(0, "mod", 1, True, ["%"]), binop(1, "*", 2), binop(2, "ω", 1)], [unary(0, "Not", True, ["-"]), unary(1, "fact", False, ["!"])],
                  [func(0, "Sin", ["sine"]), func(1, "x")], ["x", "X", "y"], ["Pi", "É"], implicit=False, complex=k),
              S("#", "x", "X", "y", "Y", "pi", "PI", "é", "sin", "SINE", "MOD", "%", "Ω", "NOT", "-", "FACT", "i", "(", ")")) for k in (False, True)]
        return [(m, c.pick(4, 5), c.pick(3, 4))]
    if prop == "P17":
        m = [(ctx(ARITH, [unary(0, "-"), unary(1, "!", False)], [func(0, "f")], ["x"], ["PI"], implicit=i, complex=True),
              S("#", "x", "PI", "f", "+", "-", "!", "(", ")", ",", "i")) for i in (False, True)]
        return [(m, c.pick(5, 6), 2)]
    return []


JUDGE = {
    "P01": {"value"},
    "P02": {"accept", "reject"},
    "P03": {"value", "reject"},
    "P04": {"tokens", "value", "reject"},
    "P05": {"value", "reject"},
    "P06": {"split", "value"},
    "P07": {"names", "value"},
    "P17": {"convert", "stages", "reject"},
    "P27": set(),
}
# contexts, texts per context
VOLUME = {"quick": (500, 40), "thorough": (6000, 60)}


def replay(c, args, what):
    out = c.harness(*args, ok=(0, 1))
    n = okays = bad = None
    for l in out.splitlines():
        if l.startswith("MISMATCH "):
            d = json.loads(l[9:])
            c.violation("replay", "%s: specified %s, the code gives %s" % (what, show(d["case"]), json.dumps(d["got"], ensure_ascii=False)[:800]), d)
        elif l.startswith("REPLAYED"):
            n, okays, bad = map(int, l.split()[1:])
    if n is None:
        raise vlib.ToolError("no replay summary: " + out[-500:])
    c.count("behaviours_replayed_in_the_code", n)
    c.count("replayed_well_formed", okays)
    c.count("traces_validated_against_impl", n)
    return n, okays


def show(case):
    if "text" in case:
        return "%r -> %s" % (text(case["text"]), json.dumps({k: v for k, v in case.items() if k not in ("text", "c")}, ensure_ascii=False)[:600])
    return json.dumps(case, ensure_ascii=False)[:800]


def models(c, prop):
    r = random.Random(c.seed * 7919 + 13)
    k = 0
    for kind, lst in (("MCTokens", token_models(prop, c, r)), ("MCRaws", raw_models(prop, c, r))):
        for m, maxlen, maxbad in lst:
            k += 1
            ctxs, inp, out = c.path("m%d.ctx" % k), c.path("m%d.in" % k), c.path("m%d.out" % k)
            key = "toks" if kind == "MCTokens" else "raws"
            vlib.write_lines(inp, [{"ctx": x, key: a} for x, a in m])
            vlib.write_lines(ctxs, [x for x, _ in m])
            consts = {"MaxLen": maxlen, "MaxBad": maxbad}
            if kind == "MCTokens":
                consts["Emit"] = True
                consts["Calls"] = prop == "P27"
            st = c.model(kind, ["Agree", "Stacks"] + (["CallsAgree"] if prop == "P27" else []) if kind == "MCTokens" else ["Emitted"], consts=consts, env={"VH_CTXS": inp, "VH_OUT": out})
            n, okays = replay(c, ["replay", ctxs, out], kind)
            if n < st["distinct"]:
                raise vlib.ToolError("TLC wrote %d of %d behaviours" % (n, st["distinct"]))
            c.log("%s, %d contexts, up to %d tokens: %d states, %d replayed, %d well-formed" % (kind, len(m), maxlen, st["distinct"], n, okays))


def lexer_models(c):
    for alpha, n in ((["1", ".", "a", "+", " ", "("], c.pick(6, 8)),
                     (["1", "0", "b", ".", "_", "-", "é", "$", ",", "\t"], c.pick(4, 5)),
                     (["7", "Z", "i", "\u00a0", "\u3000", "]", "{", "²", "@", ".", "😀"], c.pick(4, 5)),
                     (sorted("~`!@#$%^&*-+_:;\"'|\\?.<>/=,(){}[]aZ09b \n"), c.pick(3, 3))):
        al, out = c.path("alpha.json"), c.path("lex.out")
        json.dump(ch(alpha), open(al, "w"))
        if os.path.exists(out):
            os.remove(out)
        st = c.model("MCLexer", ["NothingLost", "OneClass", "Longest", "SpaceIsFree", "Emitted"], consts={"MaxLen": n, "Modes": {"default", "binary"}},
                     env={"VH_ALPHABET": al, "VH_OUT": out})
        k, _ = replay(c, ["split", out], "split")
        if k < st["distinct"]:
            raise vlib.ToolError("TLC wrote %d of %d texts" % (k, st["distinct"]))
        c.log("MCLexer, %d characters, up to %d: %d texts replayed" % (len(alpha), n, k))


def traces(c, prop):
    nctx, per = VOLUME[c.tier]
    batch = 500
    for b in range(0, nctx, batch):
        cx, tr = c.path("t.ctx"), c.path("t.rec")
        c.harness("expr", prop, c.seed * 1000003 + b, min(batch, nctx - b), per, cx, out=tr)
        lines, bad, _ = c.validate("TraceExpr", tr, consts={"Judge": JUDGE[prop]}, env={"VH_CTXS": cx})
        ctxs = open(cx).read().splitlines()
        well = 0
        for i, l in enumerate(lines):
            v = '"val":{"k":"ok"' in l or '"why":{"k":"ok"' in l
            well += v
            if v and i % (len(lines) // 3 + 1) == 7:
                x = json.loads(l)
                c.sample(text(x["text"]) if "text" in x else {"tokens": [[t[0], text(t[1])] for t in x["given"]]})
        c.count("traces_validated_against_impl", len(lines))
        c.count("recorded_texts", len(lines))
        c.count("recorded_texts_with_a_value", well)
        for i, what in bad:
            rec = json.loads(lines[i])
            given = "text %r" % text(rec["text"]) if "text" in rec else "tokens " + " ".join("%s:%s" % (t[0], text(t[1])) for t in rec["given"])
            c.violation("trace", "%s: %s not as specified: %s" % (given, what, json.dumps({k: rec[k] for k in ("toks", "rpn", "val", "idle", "runs") if k in rec}, ensure_ascii=False)[:900]),
                        {"record": rec, "context": json.loads(ctxs[rec["c"] - 1])})
        c.log("TraceExpr: %d records of %d contexts, %d with a value, %d rejected" % (len(lines), len(ctxs), well, len(bad)))
        if c.left() < 60:
            break


def run(c):
    prop = c.prop
    c.build()
    c.assumptions += ["a symbolic number type whose value is its own evaluation tree stands for every number type (the code is generic over it)",
                      "random contexts register at most a dozen names of each sort"]
    if prop == "P06":
        lexer_models(c)
    models(c, prop)
    traces(c, prop)
    if prop == "P27":
        from checks import causes
        causes.run(c)
