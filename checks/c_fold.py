"""P18: case-insensitive keys."""
import json, os, random, subprocess, unicodedata
import vlib
from vlib import chars as ch, text

TRICKY = "aAbBzZ@[`{09_ éÉßẞſKkKÅåÅσςΣωΩΩİiIıǅǄǆДдЖжԱաᲐა𐐀𐐨ŸÿµμΜ̇́ﬀﬁⅠⅰⓐⒶＡａ中٣Ꭰꭰ🎉"


def variants(r, w):
    k = r.random()
    if k < .3:
        return w.upper() if len(w.upper()) == len(w) else w
    if k < .6:
        return w.lower()
    if k < .9:
        return "".join(r.choice([c, c.upper() if len(c.upper()) == 1 else c, c.lower()]) for c in w)
    return w + r.choice(TRICKY)


def word(r):
    k = r.random()
    if k < .5:
        return "".join(r.choice(TRICKY) for _ in range(r.randint(0, 4)))
    if k < .8:
        return r.choice(["sin", "PI", "Café", "straße", "ΣΊΣΥΦΟΣ", "İstanbul", "ǅungla", "жизнь", "naïve", "𐐔𐐇𐐝", "plus", "mod", "x"])
    return "".join(chr(r.choice([r.randrange(0x41, 0x7b), r.randrange(0xc0, 0x250), r.randrange(0x370, 0x530), r.randrange(0x1e00, 0x2000), r.randrange(0x10400, 0x10450)])) for _ in range(r.randint(1, 5)))


CASED = [chr(i) for i in range(0x110000) if not 0xd800 <= i < 0xe000 and unicodedata.category(chr(i)) != "Cn" and (chr(i).lower() != chr(i) or chr(i).upper() != chr(i))]


def family(r, ch):
    """a character, its cases, and what a comparison that stops early or late would take for them"""
    f = {ch, ch.lower(), ch.upper(), ch.title(), ch.lower().upper(), ch.upper().lower()}
    f |= {w[:1] for w in f} | {w[:-1] for w in f if w} | {w + r.choice("a\u0307ſ") for w in list(f)[:2]}
    return sorted(f)


def known(s):
    return all(unicodedata.category(x) != "Cn" for x in s)


def run(c):
    c.build()
    r = random.Random("fold%d" % c.seed)
    c.assumptions.append("letter case is Unicode's lower-case mapping per character, from Python's tables; characters unassigned there are left out")
    # (a) all table histories of the model
    menus = [["a", "A", "Á", "á", "aa"], ["İ", "i̇", "i", "I", "ı"], ["σ", "Σ", "ς", "K", "k"], ["ǅ", "Ǆ", "ß", "ẞ", "SS"], ["", "_", "x1", "X1", "Ж"]]
    cases = []
    for k, m in enumerate(menus):
        mf, out = c.path("m%d" % k), c.path("o%d" % k)
        json.dump([ch(w) for w in m], open(mf, "w"))
        n = c.pick(3, 4)
        st = c.model("MCFold", ["One", "Equivalence", "Emitted"], consts={"MaxLen": n}, env={"VH_MENU": mf, "VH_OUT": out}, spec="Spec")
        hs = [json.loads(l) for l in open(out)]
        hs = [json.loads(h) if isinstance(h, str) else h for h in hs]
        if len(hs) != 15 ** n:
            raise vlib.ToolError("%d histories" % len(hs))
        cases += hs
    ask = lambda cs: [json.loads(l) for l in subprocess.run([c.vh, "fold"], input="".join(json.dumps(x) + "\n" for x in cs).encode(), stdout=subprocess.PIPE, check=True, env=vlib.ENV).stdout.decode().split("\n") if l]
    bad = 0
    for g in ask(cases):
        for i, o in enumerate(g["table"]):
            if any(x != [o["res"], o["size"]] for x in g["res"][i]):
                bad += 1
                c.violation("table", "after %s the tables answer %s instead of %s of %d" % ([(x["op"], text(x["w"])) for x in g["table"][:i + 1]], g["res"][i], o["res"], o["size"]), g)
                break
    c.count("traces_validated_against_impl", len(cases))
    c.log("MCFold: all %d histories of the tables replayed, %d differ" % (len(cases), bad))
    # (b) matrices of random words, long random histories, and every character
    cs = []
    for k in range(c.pick(120, 2500)):
        ws = []
        while len(ws) < 40:
            w = word(r)
            v = [w] + [variants(r, w) for _ in range(3)]
            ws += [x for x in v if known(x)]
        cs.append({"words": [ch(w) for w in ws[:40]]})
    for k in range(c.pick(40, 400)):       # long ones, alike but for one place
        n, ascii = r.choice([7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 40, 63, 64, 65, 100, 128, 130, 256, 257, 300]), r.random() < .5
        base = [r.choice("abcxyzABCXYZ_019") for _ in range(n)] if ascii else [r.choice("abXY_7éÉσΣжЖ") for _ in range(n)]
        ws = ["".join(base)]
        while len(ws) < 12:
            w = list(r.choice(["".join(base), r.choice(ws)]))
            if r.random() < .6:
                i = r.choice([0, len(w) - 1, len(w) - 2, r.randrange(len(w)), r.randrange(len(w))])
                w[i] = r.choice([r.choice("abzAZ_"), r.choice(TRICKY), w[i].upper()[:1], "@", "`", "[", "{", "K"])
            elif r.random() < .5:
                w = [r.choice([x.upper() if len(x.upper()) == 1 else x, x.lower()]) for x in w]
            else:
                w = w[:-1] if r.random() < .5 else w + [r.choice("aZ_é")]
            ws.append("".join(w))
        cs.append({"words": [ch(w) for w in ws if known(w)]})
        cs.append({"table": [{"op": r.choice(["insert", "get", "get", "remove"]), "w": ch(r.choice([x for x in ws if known(x)])), "v": j} for j in range(20)]})
    multi = [x for x in CASED if len(x.lower()) > 1 or len(x.upper()) > 1]
    fams = [family(r, x) for x in multi] + [family(r, x) for x in (r.sample(CASED, 300) if not c.thorough() else CASED)]
    r.shuffle(fams)
    pre = ["", "", "x", "İ", "É9"]
    ws = []
    for f in fams:
        a, b = r.choice(pre), r.choice(pre)
        ws += [a + x + b for x in f if known(x)]
        if len(ws) >= 30:
            cs.append({"words": [ch(w) for w in ws]})
            ws = []
    for k in range(c.pick(300, 6000)):
        ws = []
        for _ in range(5):
            w = word(r)
            ws += [x for x in [w, variants(r, w), variants(r, w)] if known(x)]
        cs.append({"table": [{"op": r.choice(["insert", "get", "get", "remove"]), "w": ch(r.choice(ws or ["a"])), "v": j} for j in range(40)]})
    recs = ask(cs)
    allc = ask([{"all": "string"}, {"all": "str"}])
    kinds = sum(g["kind"] == "rest" for g in allc)
    if kinds != 2:
        raise vlib.ToolError("classes of all characters: %d" % kinds)
    unk = c.path("unknown.json")
    seen = {x for g in allc if g["kind"] == "class" for x in g["chars"]}
    json.dump(sorted({x for x in seen if not known(text([x]))}), open(unk, "w"))
    tr = c.path("fold.tr")
    vlib.write_lines(tr, recs)
    lines, bad, _ = c.validate("TraceFold", tr, env={"VH_UNKNOWN": unk})
    vlib.write_lines(tr + ".all", allc)
    lines2, bad2, _ = c.validate("TraceFold", tr + ".all", env={"VH_UNKNOWN": unk}, shards=1)
    for i, what in bad:
        x = recs[i]
        c.violation("words", "%s: %s" % (what, " ".join(text(w) for w in x["words"]) if "words" in x else [(o["op"], text(o["w"])) for o in x["table"]]), x)
    for i, what in bad2:
        c.violation("chars", "%s: %s" % (what, text(allc[i]["chars"]) if allc[i]["kind"] == "class" else allc[i]), allc[i])
    c.count("traces_validated_against_impl", len(recs) + len(allc))
    c.count("word_pairs_compared", sum(len(x["words"]) ** 2 for x in recs if "words" in x))
    c.count("characters_classified", allc[-1]["total"])
    for x in recs[:2]:
        c.sample([text(w) for w in x["words"]][:10])
    c.sample([text(x["chars"]) for x in allc[:5] if x["kind"] == "class"])
    c.log("TraceFold: %d matrices and histories, all %d characters in %d cased classes, %d rejected" % (len(recs), allc[-1]["total"], len(allc) - 1, len(bad) + len(bad2)))
