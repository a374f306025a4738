"""P15: arities and vocabularies."""
import json, random
import vlib

FAM = {"checked": ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize"], "unchecked": ["uf64", "ui64"], "decimal": ["dec"], "complex": ["cpx"], "binary": ["bin"]}
OF = {k: f for f, ks in FAM.items() for k in ks}


def pool(ctx):
    f = OF[ctx]
    if ctx[0] in "iu" and ctx != "uf64":
        return ["1", "2", "3", "0", "45", "30", "-1", "-7", "90", "100", "5"]
    if f == "binary":
        return ["0", "1", "5", "12", "b1011", "2", "b110", "b1111111"]
    p = ["1", "2", "0.5", "3", "0", "45", "30", "-1", "-7.25", "90", "100", "0.25", "1.5", "-0.5", "12"]
    return p + (["2i", "1+i", "-3-2i"] if f == "complex" else [])


def lit(ctx, x):
    return "(0-%s)" % x[1:] if x[0] == "-" and OF[ctx] != "complex" else "(%s)" % x


def variants(r, n):
    vs = {n, n.upper(), n.lower(), n.capitalize(), "".join(r.choice([c.upper(), c.lower()]) for c in n)}
    return sorted(vs)


def run(c):
    c.build()
    r = random.Random("vocab%d" % c.seed)
    out = c.path("uses")
    maxargs = c.pick(8, 40)
    c.model("MCVocab", ["Disjoint", "EachTakesSome", "Emitted"], consts={"MaxArgs": maxargs}, env={"VH_OUT": out}, spec="Spec")
    uses = [json.loads(json.loads(l)) for l in open(out)]
    c.log("%d uses of the vocabularies from the model" % len(uses))
    recs = []
    # the tables themselves
    for k in OF:
        for imp in (False, True):
            x = c.real([{"ctx": k, "implicit": imp}])[0]["res"]
            v = x["vocab"]
            recs.append({"kind": "vocab", "fam": OF[k], "ctx": k, "asked": imp, "implicit": x["implicit"], "complex": x["complex"], "custom": x["custom"],
                         "consts": [y["name"] for y in v if y["kind"] == "const"], "fns": [y["name"] for y in v if y["kind"] == "fn"],
                         "bins": [{"name": y["name"], "prec": y["prec"], "left": y["left"]} for y in v if y["kind"] == "bin"],
                         "unas": [{"name": y["name"], "prefix": y["prefix"]} for y in v if y["kind"] == "una"],
                         "vars": sum(y["kind"] == "var" for y in v), "owns": [[y["name"], y["own"]] for y in v]})
    # every call with every number of arguments; every use in every spelling
    cases, kinds = [], []
    for u in uses:
        for k in FAM[u["fam"]]:
            p = pool(k)
            tuples = [[r.choice(p) for _ in range(u["n"])] for _ in range(c.pick(12, 60))]
            if u["n"] == 1:
                tuples = [[x] for x in p]
            if u["n"] > 1:
                tuples.append(["1"] * u["n"])
            if u["kind"] == "fn":
                cases.append({"ctx": k, "call": u["name"], "as": "fn", "args": tuples})
                kinds.append(("call", u, k))
            if not u["takes"] or u["name"] == "random" or (u["kind"] == "fn" and u["n"] > 3):
                continue
            names = variants(r, u["name"])
            for t in r.sample(tuples, min(4, len(tuples))):
                a = [lit(k, x) for x in t]
                if u["kind"] == "const":
                    texts = names + ["(%s)" % n for n in names]
                elif u["kind"] == "fn":
                    texts = ["%s(%s)" % (n, ", ".join(a)) for n in names]
                elif u["kind"] == "bin":
                    texts = ["%s %s %s" % (a[0], n, a[1]) for n in names + [u["as"]]]
                else:
                    pre = u["name"] != "!"
                    texts = [("%s %s" % (n, a[0]) if pre else "%s %s" % (a[0], n)) for n in names + [u["as"]]]
                cases.append({"ctx": k, "texts": texts})
                kinds.append(("text", u, k, texts))
                if u["kind"] != "const" and OF[k] == "complex" and any(x[0] == "-" for x in t):
                    # the sign of a zero part depends on how a negative number is written
                    cases.append({"ctx": k, "texts": texts[:1]})
                    kinds.append(("direct", u, k))
                elif u["kind"] != "const":
                    cases.append({"ctx": k, "call": u["as"], "as": u["kind"], "args": [t]})
                    kinds.append(("direct", u, k))
                else:
                    cases.append({"ctx": k, "texts": [u["as"]]})
                    kinds.append(("direct", u, k))
    for j, x in enumerate(cases):
        x["j"] = j
    got = c.real(cases)
    got.sort(key=lambda x: x["j"])
    slim = lambda y: {"k": y["k"], "v": [z.replace("-0.0", "0.0") if z == "-0.0" else z for z in y["v"]], "e": y["e"]}
    fix = lambda x: [slim(y) for y in x["res"]] if isinstance(x["res"], list) else [{"k": x["res"], "v": [], "e": ""}]
    for j, (kind, x) in enumerate(zip(kinds, got)):
        u = kind[1]
        if kind[0] == "call":
            recs.append({"kind": "call", "fam": u["fam"], "ctx": kind[2], "name": u["name"], "n": u["n"], "outs": fix(x)})
        elif kind[0] == "text":
            recs.append({"kind": "same", "fam": u["fam"], "ctx": kind[2], "name": u["name"], "texts": ["".join(vlib.chars(t)) for t in kind[3]], "outs": fix(got[j + 1]) + fix(x)})
    tr = c.path("vocab.tr")
    vlib.write_lines(tr, recs)
    lines, bad, _ = c.validate("TraceVocab", tr)
    c.count("traces_validated_against_impl", len(recs))
    c.count("calls", sum(len(x["args"]) for x in cases if "args" in x))
    for i, what in bad:
        x = recs[i]
        c.violation("%s:%s" % (x["ctx"], x.get("name", "vocabulary")), "%s: %s %s %s" % (x["ctx"], x.get("name", "the vocabulary"), what, json.dumps({k: v for k, v in x.items() if k in ("n", "outs", "texts")})[:600]), x)
    for x in recs[26::max(1, len(recs) // 5)]:
        c.sample({k: x[k] for k in ("kind", "ctx", "name", "n", "texts") if k in x})
    c.log("TraceVocab: %d records, %d rejected" % (len(recs), len(bad)))
