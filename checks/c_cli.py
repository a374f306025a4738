"""P20: the command line program."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import chars as ch
from checks import realgen, c_total
from checks.c_repl import SGR, TYPES, build_bins, drive

CTX = {"decimal": "dec", "float": "uf64", "integer": "i128", "complex": "cpx", "binary": "bin"}
LISTS = ["constants", "operators", "functions"]
# what one type accepts or computes and another does not
TELLING = ["2(3)", "(1)(2)", "2PI", "2 pi", "(2)3", "2sqrt(4)", "3i", "i", "i*i", "(1+2i)(3-i)", "2i2", "-i", "1/3", "7/2", "1/0", "0/0", "0.1+0.2", "2^0.5", "2^(0-1)", "5!", "25!", "35!", "171!", "2^100", "2^127", "2^200", "10^30",
           "170141183460469231731687303715884105727", "170141183460469231731687303715884105727 + 1", "79228162514264337593543950335", "79228162514264337593543950335+1", "1.5", "007", "1e3", "E", "e", "PI", "b101", "b101 | 2", "5 & 3", "5 and 3",
           "~1", "not b0", "1 << 127", "1 << 128", "0b1", "b", "3 == 3", "3 >= 4", "7 mod 3", "-7 mod 3", "sin(90)", "cos(PI)", "sqrt(2)", "sqrt(0-4)", "ln(0)", "cbrt(27)", "abs(0-3)", "sign(0-3)", "floor(1.5)", "max(1,2,3)", "max()", "max(1)", "sum(1,2)",
           "random(1,0)", "atan(1)", "atan(1,2)", "log(8,2)", "tan(90)", "exp(1)", "x", "$result", "x = 1", "$", "", " ", "(", ")", "1 +", "+", "1,2", "f(1)", "1 2", "١", "é", "1\n+ 1", "\t1", "𝟏", "eval", "--", "exit"]


def launch(exe, argv, limit=60):
    try:
        p = subprocess.run([exe] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env={"PATH": "/usr/bin:/bin", "TERM": "xterm", "HOME": "/tmp", "COLUMNS": "100"})
        return p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return b"", b"", -999


def classed(argv):
    """The arguments as the specification takes them."""
    out = []
    for a in argv:
        if ["opt", "--"] in out:
            out.append(["opt" if a in ("--", "--no-color", "--help") else "word", "".join(ch(a))])
        elif a.startswith("--type="):
            out.append(["glued", a[7:]])
        elif a.startswith("-t") and a != "-t":
            out.append(["glued", a[2:].lstrip("=")])
        elif a.startswith("-") and a != "-":
            out.append(["opt", "--help" if a == "-h" else a])
        else:
            out.append(["word", "".join(ch(a))])
    return out


def spelled(r, args):
    """Some way to write the arguments the model chose."""
    out = []
    for k, t in args:
        if k == "glued":
            out.append(r.choice(["-t%s", "-t=%s", "--type=%s"]) % t)
        elif t == "--help":
            out.append(r.choice(["--help", "-h"]))
        else:
            out.append(t)
    return out


def words(raw):
    # a first word, and the rest
    t = SGR.sub("", raw.decode(errors="replace"))
    ls = t.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    return [(l.split(None, 1) + ["", ""])[:2] for l in ls]


def run(c):
    c.build()
    exe = os.path.join(build_bins(c), "eval")
    r = random.Random("cli%d" % c.seed)
    out = c.path("lines")
    c.model("MCCli", ["Emitted", "Folds", "Order", "Sound", "Dashes"], consts={"Max": c.pick(4, 5)}, env={"VH_OUT": out}, spec="Spec")
    model = [json.loads(json.loads(l)) for l in open(out)]
    c.log("MCCli: %d command lines" % len(model))
    cmds = []                       # (argv, asked: what it is, type, expression)
    seen = set()
    for m in model:
        if m["ask"] == "usage" and r.random() > c.pick(.25, 1):
            continue
        argv = spelled(r, m["args"])
        if tuple(argv) not in seen:
            seen.add(tuple(argv))
            cmds.append((argv, m["type"], m["expr"][0] if m["expr"] else None))
    n_model = len(cmds)

    def argv(ty, verb, e=None):
        opts = []
        if ty != "decimal" or r.random() < .5:
            opts.append(r.choice([["-t", ty], ["--type", ty], ["-t" + ty], ["-t=" + ty], ["--type=" + ty]]))
        top = []
        if r.random() < .4:
            (top if r.random() < .5 else opts).append(["--no-color"])
        r.shuffle(opts)
        a = sum(top, []) + [verb]
        if e is None:
            return a + sum(opts, [])
        k = r.randint(0, len(opts))
        if e.startswith("-") or r.random() < .3:
            return a + sum(opts, []) + ["--", e]
        return a + sum(opts[:k], []) + [e] + sum(opts[k:], [])
    for ty in TYPES:
        for l in LISTS:
            for _ in range(c.pick(3, 10)):
                cmds.append((argv(ty, l), ty, None))
        texts = list(TELLING)
        for _ in range(c.pick(2000, 12000)):
            k = r.random()
            x = CTX[ty] if r.random() < .8 else CTX[r.choice(TYPES)]
            if k < .6:
                t = realgen.expr(r, x, ["x"] if r.random() < .1 else [], r.randint(1, 4))
                if r.random() < .25:
                    t = realgen.spoil(r, t)
                if r.random() < .1:
                    t = t.replace("*", "")
            elif k < .8:
                t = "".join(r.choice(c_total.menu(x) + c_total.nums(x)[:8]) + r.choice(["", "", " "]) for _ in range(r.randint(1, 8)))
            else:
                t = realgen.number(r, x) + r.choice(["(", " (", "PI", "i", " x", "sqrt("]) + realgen.number(r, x) + r.choice([")", "", "!"])
            if r.random() < .02:
                t = r.choice(["+", "-"] if ty != "binary" else ["|", "&"]).join(["(%s)" % t] * r.randint(10, 60))
            texts.append(t)
        texts += ["(" * 3000 + "1" + ")" * 3000, "1" + "+1" * 20000, "1" * 5000]
        for t in texts:
            if "random" not in t.lower() or t in ("random(1,0)",):
                cmds.append((argv(ty, "eval", t), ty, t))
    # the library's answers
    ask = {ty: sorted({e for _, t, e in cmds if t == ty and e is not None}) for ty in TYPES}
    ref = subprocess.run([c.vh, "texts"], input="".join(json.dumps({"type": ty, "texts": ask[ty]}) + "\n" for ty in TYPES).encode(), stdout=subprocess.PIPE, env=vlib.ENV, check=True).stdout.decode()
    lib, consts = {}, {}
    for l in ref.split("\n"):
        if l:
            x = json.loads(l)
            consts[x["type"]] = x["res"]["consts"]
            for t, y in zip(x["texts"], x["res"]["lib"]):
                lib[x["type"], t] = y

    def record(cmd):
        a, ty, e = cmd
        o, err, code = launch(exe, a)
        # only a listing's lines and constants are looked at
        ls = words(o) if any(v in LISTS for v in a) else []
        return {"args": classed(a), "lib": lib.get((ty, e), {"k": "none", "v": []}), "consts": consts.get(ty, []) if "constants" in a else [],
                "out": ch(SGR.sub("", o.decode(errors="replace"))) if e is not None or not o else ["lines"], "lines": ls, "esc": b"\x1b" in o or b"\x1b" in err, "err": bool(SGR.sub("", err.decode(errors="replace")).strip()), "code": code}
    with ThreadPoolExecutor(vlib.CORES * 2) as ex:
        recs = list(ex.map(record, cmds))
    # sessions without colours
    def plain(k):
        ty = TYPES[k % 5]
        a = [["--no-color", "repl", "-t", ty], ["repl", "--no-color", "--type=" + ty]][k // 5 % 2]
        keys = [["char", x] for x in "1"] + [["enter", ""]] + [["char", x] for x in ("1 +", "x = 1", "y = z", "a = b = c")[k % 4]] + [["enter", ""], ["up", ""], ["up", ""], ["enter", ""], [["esc", ""], ["int", ""]][k % 2]]
        o, err, code = drive(exe, a, keys, True)
        if code is None:
            o, err, code = drive(exe, a, keys, True, slow=True)
        return a, {"args": classed(a), "lib": {"k": "none", "v": []}, "consts": [], "out": [], "lines": [], "esc": bool(SGR.search((o + err).decode(errors="replace"))), "err": False, "code": -1 if code is None else code}
    with ThreadPoolExecutor(vlib.CORES) as ex:
        for a, x in ex.map(plain, range(c.pick(20, 40))):
            cmds.append((a, "", None))
            recs.append(x)
    tr = c.path("cli.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceCli", tr)
    c.count("traces_validated_against_impl", len(recs))
    c.count("command_lines_from_the_model", n_model)
    c.count("values_printed", sum(x["lib"]["k"] == "ok" for x in recs))
    c.count("errors_reported", sum(x["lib"]["k"] == "err" for x in recs))
    for i, what in bad:
        c.violation("cli", "eval %s %s" % (json.dumps(cmds[i][0])[:300], what), {"argv": cmds[i][0], "record": recs[i]})
    for i in range(0, len(recs), len(recs) // 6):
        c.sample({"argv": cmds[i][0], "out": vlib.text(recs[i]["out"])[:120] if recs[i]["out"] != ["lines"] else "%d lines" % len(recs[i]["lines"]), "code": recs[i]["code"]})
    c.log("TraceCli: %d runs of the program, %d rejected" % (len(recs), len(bad)))
