"""P25: splitters built rule by rule.

(a) TLC runs the splitter machine over every short text under many rule lists, compares it with the
    splitting by positions, and writes every text with its tokens; all are replayed in the real builders.
(b) Long random texts are split by the real splitters and TLC validates what they gave.
"""
import json, os, random
import vlib
from checks.c_expr import replay, show

OPS = "~`!@#$%^&*-+_:;\"'|\\?.<>/="
ch = vlib.chars


def charset(r, pool):
    return [x for x in pool if r.random() < .4] or [r.choice(pool)]


def make_rule(r, pool, kinds=("num", "id", "op", "set", "set", "set", "bin", "space", "pair", "drop")):
    k = r.choice(kinds)
    x = {"k": k, "cs": [], "base": "", "edits": []}
    if k in ("pair", "drop"):
        x["cs"] = ch("".join(charset(r, pool)))
    if k == "set":
        x["base"] = r.choice(["empty", "empty", "new", "builder", "plain"])
        if x["base"] != "plain":
            full = x["base"] != "empty"
            for _ in range(r.randint(0, 8)):
                c = r.choice(list(pool) + list("a1_.$ ") + list(OPS if full else ""))
                x["edits"].append([r.choice(["add", "except"] if full else ["add", "add", "add", "except"]), ch(c)[0]])
    return x


def make_build(r, pool):
    b = {"how": "builder", "ws": r.choice(["unset", "none", "remove", "remove"]), "from": r.choice(["new", "default", "builder"]), "early": r.random() < .5, "steps": []}
    for n in range(r.randint(0, 6)):
        at = r.randint(0, n) if r.random() < .35 else -1
        b["steps"].append({"at": at, "r": make_rule(r, pool)})
    return b


def fixed(r, pool):
    """The ready-made constructors and a list of each rule by itself."""
    base = {"how": "", "ws": "unset", "from": "new", "early": False, "steps": []}
    for how, ws in (("new", "none"), ("new", "remove"), ("default", "unset"), ("binary", "unset")):
        yield dict(base, how=how, ws=ws)
    for how in ("numeric", "identifier"):
        for k in ("bin", "set", "pair", "num", "id"):
            yield dict(base, how=how, steps=[{"at": -1, "r": make_rule(r, pool, (k,))}])
    for k in ("num", "id", "op", "set", "bin", "space", "pair", "drop"):
        yield dict(base, how="builder", ws=r.choice(["none", "remove", "unset"]), steps=[{"at": -1, "r": make_rule(r, pool, (k,))}])


def models(c):
    r = random.Random("rules%d" % c.seed)
    for alpha, n, k in (("10.ab_$+ ", c.pick(4, 5), c.pick(14, 60)), ("b0" + "".join(r.sample(OPS, 2)) + ".,é ", c.pick(4, 5), c.pick(10, 60)), ("b1+", c.pick(6, 9), c.pick(20, 60)),
                        (sorted(OPS + "a1 (\u00a0"), 2, c.pick(20, 100))):
        al, bf, out = c.path("alpha.json"), c.path("builds"), c.path("split.out")
        json.dump([ch(x)[0] for x in alpha], open(al, "w"))
        builds = list(fixed(r, alpha)) + [make_build(r, alpha) for _ in range(k)]
        vlib.write_lines(bf, builds)
        if os.path.exists(out):
            os.remove(out)
        st = c.model("MCSplitter", ["ByPosition", "NothingLost", "OrderOnlyWhereItMatters", "Emitted"], consts={"MaxLen": n}, spec="Spec",
                     env={"VH_ALPHABET": al, "VH_BUILDS": bf, "VH_OUT": out})
        got, _ = replay(c, ["rules", bf, out], "split")
        if got < st["distinct"]:
            raise vlib.ToolError("TLC wrote %d of %d texts" % (got, st["distinct"]))
        c.count("builds", len(builds))
        c.log("MCSplitter: %d builds, %d characters, up to %d: %d texts replayed" % (len(builds), len(alpha), n, got))


def traces(c):
    r = random.Random("ruletexts%d" % c.seed)
    pool = list("0123456789..ab_bzAZ$$+-*/=<>&|!?,;:()[]{}~`'\"\\#@%^ \t\n") + ["é", "λ", "\u00a0", "\u2003", "１", "٣", "€", "\U0001f600", "b0", "b1", "1.5", "x1"]
    builds, recs = [], []
    for _ in range(c.pick(300, 1500)):
        p = r.sample(pool[:-4], r.randint(3, 20))
        builds.append(make_build(r, p) if r.random() < .85 else r.choice(list(fixed(r, p))))
        for _ in range(c.pick(25, 60)):
            src = r.choice([p, p + pool, pool, list("b01.") + p])
            if r.random() < .03:
                runs = "".join(x * r.choice([1, 2, 40, 63, 64, 65, 100, 130, 260]) for x in r.sample(list(src), min(len(src), r.randint(1, 5))))
                recs.append({"b": len(builds), "text": ch(runs)})
                continue
            recs.append({"b": len(builds), "text": ch("".join(r.choice(src) for _ in range(r.randint(1, r.choice([4, 12, 60] if r.random() < .97 else [300, 1000])))))})
    bf, cf, tr = c.path("builds"), c.path("cases"), c.path("rules.tr")
    vlib.write_lines(bf, builds)
    vlib.write_lines(cf, recs)
    got = [l for l in c.harness("rules", bf, cf).splitlines() if l.startswith("{")]
    if len(got) != len(recs):
        raise vlib.ToolError("%d of %d texts recorded" % (len(got), len(recs)))
    with open(tr, "w") as f:
        f.write("\n".join(got) + "\n")
    lines, bad, _ = c.validate("TraceSplitter", tr, env={"VH_BUILDS": bf})
    c.count("traces_validated_against_impl", len(lines))
    for i, what in bad:
        x = json.loads(lines[i])
        c.violation("trace", "%r %s: %s under %s" % (vlib.text(x["text"]), what, [vlib.text(t) for t in x["got"]], json.dumps(builds[x["b"] - 1], ensure_ascii=False)), {"record": x, "build": builds[x["b"] - 1]})
    for i in range(3, len(lines), len(lines) // 4):
        x = json.loads(lines[i])
        c.sample({"text": vlib.text(x["text"]), "tokens": [vlib.text(t) for t in x["got"]]})
    c.log("TraceSplitter: %d texts, %d rejected" % (len(lines), len(bad)))


def run(c):
    c.build()
    c.assumptions.append("a caller's own rule is one of two kinds (it takes a character and the next one, or drops a character)")
    models(c)
    traces(c)
