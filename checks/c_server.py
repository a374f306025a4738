"""P21: evaluations of the server; P24: its listings."""
import json, os, random, re, threading, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import chars as ch
from checks import c_total, realgen
from checks.c_repl import TYPES, build_bins
from checks.http import Addresses, Conn, Server, request

ORACLE = os.path.join(vlib.ROOT, "oracle/target/debug/oracle")
CTX = {"decimal": "dec", "float": "f64", "integer": "i128", "complex": "cpx", "binary": "bin"}
PATHS = ["/eval", "/eval", "/eval/"]
NAMES = ["x", "y", "value", "x1", "áb", "mod", "PI", "sin", "", "1x", "a b", "$v", "_", "i", "b1", "變", "e", "max"]
FIELDS = ["expression", "type", "variables"]


def build_oracle(c):
    import subprocess
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(vlib.ROOT, "oracle"), env=vlib.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise vlib.ToolError("the oracle does not build:\n" + r.stdout[-3000:])


# ---- bodies: what the specification takes (texts still whole), and JSON ------------------------
def num(neg, digits, exp):
    d = digits.lstrip("0")
    k = d.rstrip("0")
    return {"k": "num", "neg": neg, "d": k, "e": exp + len(d) - len(k) if k else 0}


def numtext(v):
    """The number as Rust prints it; TraceServer compares this with its own NumText."""
    d, e, n = v["d"], v["e"], len(v["d"])
    t = "0" if n == 0 else d + "0" * e if e >= 0 else d[:n + e] + "." + d[n + e:] if n + e > 0 else "0." + "0" * (-e - n) + d
    return ("-" if v["neg"] else "") + t


def jstr(r, s):
    out = ""
    for x in s:
        k = r.random()
        if x in '"\\' or ord(x) < 32 or k < .03:
            if ord(x) > 0xffff:
                h = ord(x) - 0x10000
                out += "\\u%04x\\u%04X" % (0xd800 + (h >> 10), 0xdc00 + (h & 1023))
            else:
                out += {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "/": "\\/"}.get(x, "\\u%04x" % ord(x))
        else:
            out += x
    return '"%s"' % out


def jval(r, v):
    k = v["k"]
    if k == "str":
        return jstr(r, v["s"])
    if k == "num":
        d, e = v["d"] or "0", v["e"]
        n, s = len(d), "-" if v["neg"] else ""
        # more digits than these the crate that reads json rounds in its own way
        ways = [s + numtext(v).lstrip("-")] if n + max(e, 0) <= 15 else ["%s%se%d" % (s, d, e)]
        if v["d"] and abs(e) <= 15:
            ways.append("%s%se%d" % (s, d, e) if r.random() < .5 else "%s%sE%+d" % (s, d, e))
            if n > 1:
                ways.append("%s%s.%se%d" % (s, d[0], d[1:], e + n - 1))
        if not set(".e") & set(ways[0]) and len(ways[0]) < 15:
            ways.append(ways[0] + ".0")
        return r.choice(ways)
    if k == "obj":
        return jobj(r, v["m"])
    if k == "arr":
        return r.choice(["[]", "[1]", '["1+1"]', "[[]]"])
    if k == "bool":
        return r.choice(["true", "false"])
    return "null"


def jobj(r, m):
    w = lambda: r.choice(["", "", "", " ", "\n", "\t "])
    return "{" + w() + ",".join(w() + jstr(r, k) + w() + ":" + w() + jval(r, v) + w() for k, v in m) + "}"


def render(r, b):
    """The bytes of a body; what is not an object is written here in some way of its kind."""
    t = jobj(r, b["members"])
    w = b["whole"]
    if w == "object":
        return (r.choice(["", "", " ", "\n"]) + t + r.choice(["", "", " ", "\r\n", "\t"])).encode()
    if w == "cut":
        k = r.random()
        if k < .5:
            return t[:r.randrange(len(t))].encode()
        bad = [t[:-1] + ",}", t.replace(":", "", 1), t.replace('"', "", 1), "{" + t, t.replace(":", "=", 1), t.replace("{", "[", 1), '{"expression":"1+1","type":nil}', "{'expression':'1+1'}", '{expression:"1+1"}',
               '{"expression":"1+1","variables":{"x":01}}', '{"expression":"1+1","variables":{"x":+1}}', '{"expression":"1+1","variables":{"x":.5}}', '{"expression":"1+1","variables":{"x":1.}}', '{"expression":"1+1","variables":{"x":NaN}}',
               '{"expression":"1\n+1"}', '{"expression":"\\x31"}', '{"expression":"\\ud800"}', '{"expression":"1+1"/**/}']
        x = r.choice(bad)
        return x.encode()
    if w == "trailing":
        return (t + r.choice(["}", "x", " {}", ",", t, '"', " null", "\0", "]"])).encode()
    if w == "bytes":
        x = t.encode()
        k = r.randrange(len(x) + 1)
        return x[:k] + r.choice([b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80"]) + x[k:]
    return r.choice([b"", b" ", b"[]", b"[1]", b'["1+1"]', b'"1+1"', b"1", b"null", b"true", b"1+1", b"\xef\xbb\xbf" + t.encode(), b"expression=1%2B1", b"\x00", b"[" + t.encode() + b"]"])


def well(b):
    """TraceServer compares this with its own Accepts."""
    m = dict(b["members"])
    if b["whole"] != "object" or any(sum(k == f for k, _ in b["members"]) > 1 for f in FIELDS):
        return None
    e, t, v = (m.get(f, {"k": "null"}) for f in FIELDS)
    if e["k"] != "str" or not (t["k"] == "null" or t["k"] == "str" and t["s"] in TYPES) or not (v["k"] == "null" or v["k"] == "obj" and all(x["k"] in ("str", "num") for _, x in v["m"])):
        return None
    last = {n: (x["s"] if x["k"] == "str" else numtext(x)) for n, x in v.get("m", [])}
    return {"type": t.get("s", "decimal"), "set": sorted(map(list, last.items())), "text": e["s"]}


def split_chars(x):
    """The same with every text as a sequence of characters, except keys and types."""
    if x["k"] == "str":
        return {"k": "str", "s": ch(x["s"])}
    if x["k"] == "num":
        return {"k": "num", "neg": x["neg"], "d": list(x["d"]), "e": x["e"]}
    if x["k"] == "obj":
        return {"k": "obj", "m": [["".join(ch(k)), split_chars(v)] for k, v in x["m"]]}
    return {"k": x["k"]}


def as_spec(b):
    ms = []
    for k, v in b["members"] if b["whole"] == "object" else []:
        ms.append(["".join(ch(k)), {"k": "str", "s": "".join(ch(v["s"]))} if k == "type" and v["k"] == "str" else split_chars(v)])
    return {"whole": b["whole"], "members": ms}


S = lambda s: {"k": "str", "s": s}
O = lambda m: {"k": "obj", "m": m}


def obj(e, ty=None, vs=None):
    ms = [["expression", S(e)]]
    if ty:
        ms.append(["type", S(ty)])
    if vs is not None:
        ms.append(["variables", O(vs)])
    return {"whole": "object", "members": ms}


def some_value(r, ty):
    if r.random() < .5:
        k = r.random()
        if k < .5:
            return num(r.random() < .3, str(r.choice([0, 1, 2, 3, 5, 10, 42, 100, 255, 2 ** 40])), 0)
        return num(r.random() < .3, str(r.randrange(10 ** r.randint(1, 15))), r.randint(-20, 20) if k > .8 else r.randint(-4, 0))
    return S(r.choice(["1", "2", "-3", "+4", "0.5", "1.50", "1/2", "", " 1", "1 ", "x", "1e3", "1e-3", "3i", "1+2i", "2-i", "b101", "101", "1_0", "NaN", "inf", "-0", "0x10", "١", "79228162514264337593543950335", "170141183460469231731687303715884105727", "1" * 40, realgen.number(r, CTX[ty])]))


def body(r, telling):
    ty = r.choice(TYPES)
    c = CTX[ty] if r.random() < .9 else CTX[r.choice(TYPES)]
    names = []
    many = r.random() < .02
    for k in range(r.choice([0, 0, 0, 1, 1, 2, 3]) if not many else r.randint(20, 300)):
        n = r.choice(NAMES[:3] if r.random() < .7 else NAMES) if not many else "v%s" % "abcdefghijklmnopqrstuvwxyz"[k % 26] * (1 + k // 26)
        if n not in names:
            names.append(n)
    vs = [[n, some_value(r, ty)] for n in names]
    if vs and r.random() < .1:
        vs.append([r.choice(names), some_value(r, ty)])
    k = r.random()
    if k < .25:
        e = r.choice(telling)
    elif k < .8:
        e = realgen.expr(r, c, (names or []) + (["x", "y", "value"] if r.random() < .3 else []), r.randint(0, 3))
        if r.random() < .15:
            e = realgen.spoil(r, e)
    else:
        e = "".join(r.choice(c_total.menu(c) + c_total.nums(c)[:8] + names) + r.choice(["", "", " "]) for _ in range(r.randint(1, 8)))
    if many and r.random() < .8:
        e = r.choice([" | ", " & "] if ty == "binary" else [" + ", " - "]).join(r.sample(names, min(len(names), r.randint(1, 12))))
        vs = [[n, num(False, str(r.randrange(50)), 0)] for n in names]
    if r.random() < .02:        # a long text
        e = r.choice(["+", "|"] if ty == "binary" else ["+", "*", "-"]).join(["(%s)" % e] * r.randint(10, 150))
    ms = [["expression", S(e)]]
    if ty != "decimal" or r.random() < .5:
        ms.append(["type", S(ty)])
    elif r.random() < .2:
        ms.append(["type", {"k": "null"}])
    if vs or r.random() < .1:
        ms.append(["variables", O(vs)])
    elif r.random() < .05:
        ms.append(["variables", {"k": "null"}])
    r.shuffle(ms)
    b = {"whole": "object", "members": ms}
    k = r.random()
    if k < .06:             # the wrong kind of something
        f = r.choice(FIELDS)
        ms[:] = [m for m in ms if m[0] != f] + [[f, r.choice([{"k": "null"}, {"k": "bool"}, {"k": "arr"}, num(False, "1", 0), S("nope"), S("Decimal"), S(""), O([]), O([["x", {"k": "null"}]]), O([["x", O([])]]), O([["x", {"k": "bool"}], ["y", S("1")]])])]]
    elif k < .08:
        ms[:] = [m for m in ms if m[0] != "expression"]
    elif k < .1:
        ms.append(list(r.choice(ms)))
    elif k < .14:
        ms.insert(r.randrange(len(ms) + 1), [r.choice(["extra", "Expression", "only_result", "types", "result", "expressio", "variable"]), r.choice([{"k": "null"}, {"k": "bool"}, {"k": "arr"}, S("1"), num(True, "15", -1), O([["x", O([])]])])])
    elif k < .22:
        b["whole"] = r.choice(["cut", "trailing", "bytes", "other"])
    return b


def got_of(code, head, raw):
    g = {"code": code, "form": "none", "text": [], "result": [], "error": []}
    if code in (0,):
        return g
    t = raw.decode("utf-8", "replace")
    j = None
    if "json" in head.get("content-type", ""):
        try:
            j = json.loads(t)
        except ValueError:
            pass
    if isinstance(j, dict) and set(j) <= {"result", "error"}:
        g["form"] = "json"
        for f in ("result", "error"):
            if j.get(f) is not None:
                g[f] = [ch(j[f]) if isinstance(j[f], str) else ["?"]]
    else:
        g["form"] = "text"
        g["text"] = ch(t)
    return g


class Ask:
    """A request to /eval: its body, what it is, how it is written."""
    def __init__(self, r, b, bare=None):
        self.body, self.q = b, well(b)
        self.bare = r.random() < .3 if bare is None else bare
        self.raw = render(r, b)
        extra = ["content-type: " + r.choice(["application/json", "application/json", "text/plain", "application/x-www-form-urlencoded"])] if r.random() < .8 else []
        path = r.choice(PATHS) + (r.choice(["?only_result=true", "?only_result=true", "?a=b&only_result=true", "?only_result=true&type=float"]) if self.bare else r.choice(["", "", "", "?only_result=false", "?", "?type=float", "?expression=2"]))
        if r.random() < .05 and self.raw:
            k = r.randrange(1, len(self.raw) + 1)
            chunks = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in (self.raw[:k], self.raw[k:]) if p)
            self.wire = request("POST", path, None, extra + ["transfer-encoding: chunked"]) + chunks + b"0\r\n\r\n"
        else:
            self.wire = request("POST", path, self.raw, extra)
        self.pause = r.random() < .03        # header and body apart

    def put(self, conn):
        if self.pause:
            k = self.wire.index(b"\r\n\r\n") + 4
            conn.send(self.wire[:k])
            time.sleep(.002)
            conn.send(self.wire[k:])
        else:
            conn.send(self.wire)


def judge_alone(c, asks):
    """What the library makes of every question, alone; those that never end are left out."""
    qs = {}
    for a in asks:
        if a.q:
            qs[json.dumps(a.q)] = a.q
    cases = [dict(q) for q in qs.values()]
    random.Random(1).shuffle(cases)
    out = {}
    for x in c.real(cases, cmd=[ORACLE, "2000"]):
        k = x["res"] if isinstance(x["res"], str) else x["res"]["k"]
        slow = k == "hang" or x.get("ms", 0) > 700
        out[json.dumps({f: x[f] for f in ("type", "set", "text")})] = {"k": "never" if slow else k, "v": ch(x["res"]["v"]) if isinstance(x["res"], dict) else []}
    return out


def rec(a, lib, got, ahead=1):
    q = a.q
    return {"alone": ahead == 1 and not a.pause, "body": as_spec(a.body), "bare": a.bare, "asked": [{"type": q["type"], "set": [["".join(ch(n)), ch(v)] for n, v in q["set"]], "text": ch(q["text"])}] if q else [],
            "lib": lib.get(json.dumps(q), {"k": "none", "v": []}) if q else {"k": "none", "v": []}, "got": got}


LOST = (0, {}, b"")


def converse(port, ip, asks, ahead):
    """One connection, up to `ahead` requests under way; every answer, LOST for one that never comes."""
    out = []
    try:
        k = Conn(port, ip, 30)
        sent = 0
        while len(out) < len(asks):
            while sent < len(asks) and sent - len(out) < ahead:
                asks[sent].put(k)
                sent += 1
            out.append(k.recv())
        k.close()
    except OSError:
        pass
    return out + [LOST] * (len(asks) - len(out))


# ---- P21 ------------------------------------------------------------------------
MENU = {"set x": [("1", ["x"]), ("x", [["x", num(False, "1", 0)]])], "set x again": [("x", [["x", S("2")], ["y", num(False, "3", 0)]])], "read x": [("x", None)], "read y": [("y", [["x", S("4")]])],
        "fail": [("1/0 + ", [["y", S("5")]])], "malformed": None, "plain": [("7", None)]}


def menu(r, name):
    ty = r.choice(TYPES)
    if name == "malformed":
        b = body(r, ["1+1"])
        while well(b):
            b = body(r, ["1+1"])
        return b
    e, vs = MENU[name][-1]
    if name == "fail":
        e = r.choice(["1 +", "x(", "(", "nope", "y y", "34!" if ty == "integer" else "1/0" if ty != "binary" else "1 << 200", "1 + é-"])
    if name == "plain":
        e = "7" if ty != "binary" else "b111"
    return obj(e, None if ty == "decimal" else ty, vs)


def schedules(c, server, r, lib, recs):
    """Every schedule of sends and receipts of the model, on fresh connections."""
    out = c.path("schedules")
    c.model("MCServer", ["Isolated", "InOrder", "Emitted"], consts={"Conns": c.pick({1, 2}, {1, 2, 3}), "Total": 3, "Ahead": 2, "Kept": False, "Emit": True}, env={"VH_OUT": out}, spec="SpecEager")
    hs = [json.loads(json.loads(l)) for l in open(out)]
    r.shuffle(hs)
    plans = []
    for h in hs[:c.pick(4000, len(hs))]:
        # a variable of one request is looked for in the other requests of the schedule: all of one type, mostly
        plans.append((h, [(e[1], Ask(r, menu(r, e[2]), False)) for e in h["hist"] if e[0] == "send"]))
    lib.update(judge_alone(c, [a for _, p in plans for _, a in p]))
    ips = Addresses(11)

    def go(plan):
        h, p = plan
        ip = ips.take(len(p))
        conns, todo, wait, res = {}, list(p), {}, []
        try:
            for kind, n, _ in h["hist"]:
                if n not in conns:
                    conns[n], wait[n] = Conn(server.port, ip, 30), []
                if kind == "send":
                    a = todo.pop(0)[1]
                    a.put(conns[n])
                    wait[n].append(a)
                else:
                    a = wait[n].pop(0)
                    res.append((a, conns[n].recv()))
        except OSError:
            res += [(a, LOST) for w in wait.values() for a in w] + [(a, LOST) for _, a in todo]
        for k in conns.values():
            k.close()
        return res
    with ThreadPoolExecutor(24) as ex:
        for res in ex.map(go, plans):
            recs += [rec(a, lib, got_of(*g), 2) for a, g in res]
    c.count("schedules_replayed", len(plans))
    c.log("%d schedules of %d replayed" % (len(plans), len(hs)))


def storm(c, server, r, lib, recs, n, width):
    """Many connections at once, each with its own requests."""
    from checks.c_cli import TELLING
    telling = [t for t in TELLING if t != "random(1,0)"] + ["34!", "1 + é-", "x", "y", "x + y", "value", "x * 2", "0^(0-1)"]
    talks, asks = [], []
    while len(asks) < n:
        k = r.randint(1, 30)
        base = body(r, telling)
        one = []
        for _ in range(k):
            b = body(r, telling) if r.random() < .75 else base
            if r.random() < .2:         # the same question of another type
                b = json.loads(json.dumps(b))
                b["members"] = [m for m in b["members"] if m[0] != "type"] + [["type", S(r.choice(TYPES))]]
            one.append(Ask(r, b))
        talks.append(one)
        asks += one
    lib.update(judge_alone(c, asks))
    never = 0
    for t in talks:
        keep = [a for a in t if not a.q or lib[json.dumps(a.q)]["k"] != "never" and "random" not in a.q["text"].lower()]
        never += len(t) - len(keep)
        t[:] = keep
    ips = Addresses(12)
    plan = [(t, ips.take(len(t)), r.choice([1, 1, 2, 4])) for t in talks if t]
    with ThreadPoolExecutor(width) as ex:
        for (t, _, ahead), res in zip(plan, ex.map(lambda p: converse(server.port, p[1], p[0], p[2]), plan)):
            recs += [rec(a, lib, got_of(*g), ahead) for a, g in zip(t, res)]
    c.log("%d requests over %d connections (%d endless or random ones left out)" % (len(asks) - never, len(plan), never))


def same_body(c, server, r, lib, recs):
    """One name, another value on every connection, all at once: who reads what?"""
    asks = []
    for k in range(c.pick(60, 200)):
        ty = TYPES[k % 5]
        asks.append([Ask(r, obj("x" if j % 3 else "x+y" if ty != "binary" else "x | y", ty, [["x", num(False, str(1000 * k + j), 0)]] + ([] if j % 3 else [["y", num(False, str(k), 0)]])) if j % 5 else obj("x", ty), False) for j in range(40)])
    lib.update(judge_alone(c, [a for t in asks for a in t]))
    ips = Addresses(13)
    with ThreadPoolExecutor(len(asks)) as ex:
        for t, res in zip(asks, ex.map(lambda t: converse(server.port, ips.take(len(t)), t, 1 + len(t[0].raw) % 2), asks)):
            recs += [rec(a, lib, got_of(*g), 1 + len(t[0].raw) % 2) for a, g in zip(t, res)]


def findings(c, server, r):
    """The two ways to get no answer that are known, tried again."""
    end, ips = time.time() + 20, Addresses(15)

    def pipe(_):
        wires = [r.choice([request("GET", "/operators"), request("GET", "/nope"), request("POST", "/eval", b'{"expression":"1+1"}')]) for _ in range(60)]
        got = 0
        try:
            k = Conn(server.port, ips.take(90), 8)
            for i in range(0, 60, 5):
                for w in wires[i:i + 5]:
                    k.send(w)
                for _ in range(5):
                    k.recv()
                    got += 1
            k.close()
        except OSError:
            return wires[:got + 1][-3:]
    while time.time() < end:
        with ThreadPoolExecutor(60) as ex:
            lost = [x for x in ex.map(pipe, range(240)) if x]
        if lost:
            c.violation("pipelined", "a request sent before the answers to the ones before it is never answered: %r" % lost[0], None)
            break
    try:
        k = Conn(server.port, ips.take(90), 3)
        k.send(request("POST", "/eval", b'{"type":"float","expression":"(infinity)!"}'.replace(b"infinity", b"9007199254740993")))
        k.recv()
    except OSError:
        c.violation("endless", "POST /eval of the float (9007199254740993)! is not answered", None)


def p21(c, server):
    r = random.Random("server%d" % c.seed)
    c.model("MCServer", ["Isolated", "InOrder"], consts={"Conns": {1, 2}, "Total": 3, "Ahead": 2, "Kept": False, "Emit": False}, spec="Spec", properties=["AllAnswered"])
    if c.thorough():
        c.model("MCServer", ["Isolated", "InOrder"], consts={"Conns": {1, 2, 3}, "Total": 3, "Ahead": 2, "Kept": False, "Emit": False}, spec="Spec")
    bad = c.tlc("MCServer", ["Isolated"], consts={"Conns": {1, 2}, "Total": 2, "Ahead": 2, "Kept": True, "Emit": False}, spec="Spec")
    if not bad.get("failed"):
        raise vlib.ToolError("the model does not tell a server that keeps its context")
    c.log("MCServer checked; a kept context is told")
    lib, recs = {}, []
    schedules(c, server, r, lib, recs)
    same_body(c, server, r, lib, recs)
    storm(c, server, r, lib, recs, c.pick(20000, 120000), 64)
    if not server.alive():
        c.violation("dead", "the server has died", {})
    findings(c, server, r)
    tr = c.path("server.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceServer", tr)
    c.count("traces_validated_against_impl", len(recs))
    for k in ("ok", "err", "panic", "none"):
        c.count({"ok": "values", "err": "errors", "panic": "panics_in_the_crate", "none": "malformed"}[k], sum(x["lib"]["k"] == k for x in recs))
    for i, what in bad:
        x = recs[i]
        q = x["asked"][0] if x["asked"] else None
        lost = x["got"]["code"] == 0 and not x["alone"]
        c.violation("pipelined" if lost else "eval", "POST /eval %s %s; answered %s" % (json.dumps({"type": q["type"], "text": vlib.text(q["text"])[:200], "variables": [[n, vlib.text(v)] for n, v in q["set"]]}, ensure_ascii=False) if q else json.dumps(x["body"])[:300], what, json.dumps(x["got"])[:200]), x)
    for i in range(0, len(recs), len(recs) // 6):
        c.sample({"asked": [{"type": q["type"], "text": vlib.text(q["text"])[:80]} for q in recs[i]["asked"]], "got": {"code": recs[i]["got"]["code"], "result": [vlib.text(x)[:80] for x in recs[i]["got"]["result"]]}})
    c.log("TraceServer: %d answers, %d rejected" % (len(recs), len(bad)))


# ---- P24 ------------------------------------------------------------------------
LISTS = ["operators", "constants", "functions"]


def p24(c, server):
    r = random.Random("lists%d" % c.seed)
    cases = [{"type": t, "list": k} for t in TYPES for k in LISTS]
    entry = lambda x: [x["name"], x["value"]] if "value" in x else [x["name"], x["aliases"], x["description"] or ""]
    reg = {t: {} for t in TYPES}
    for x in c.real(cases, cmd=[ORACLE, "2000"]):
        reg[x["type"]][x["list"]] = [entry(e) for e in x["res"]]

    class List:
        def __init__(self):
            self.kind, self.type = r.choice(LISTS), r.choice(TYPES + [""])
            path = "/" + self.kind + r.choice(["", "", "/"])
            if self.type:
                path += "?" + r.choice(["type=%s", "type=%s", "a=1&type=%s", "type=%s&only_result=true"]) % self.type
            elif r.random() < .3:
                path += r.choice(["?", "?a=1"])
            self.wire = request("GET", path)

        def put(self, k):
            k.send(self.wire)
    plan = []
    ips = Addresses(14)
    for _ in range(c.pick(250, 3000)):
        talk = []
        for _ in range(r.randint(1, 20)):
            talk.append(List() if r.random() < .7 else Ask(r, obj(r.choice(["x", "1+1", "PI", "b1", "34!"]), r.choice(TYPES), [[r.choice(["x", "y", "PI2"]), num(False, "3", 0)]])))
        plan.append((talk, ips.take(len(talk)), r.choice([1, 2, 3])))
    recs = [{"reg": reg}]
    with ThreadPoolExecutor(32) as ex:
        for (talk, _, _), res in zip(plan, ex.map(lambda p: converse(server.port, p[1], p[0], p[2]), plan)):
            for a, (code, head, raw) in zip(talk, res):
                if isinstance(a, List):
                    try:
                        got = [entry(e) for e in json.loads(raw)] if code == 200 else []
                    except (ValueError, KeyError, TypeError):
                        got = [["?"]]
                    recs.append({"kind": a.kind, "type": a.type, "code": code, "got": got})
    n = len(recs) - 1
    tr = c.path("list.tr")
    # every part needs the register
    parts = [recs[:1] + recs[1 + n * i // vlib.CORES:1 + n * (i + 1) // vlib.CORES] for i in range(vlib.CORES)]

    def one(i):
        p = "%s.%d" % (tr, i)
        vlib.write_lines(p, parts[i])
        return c.validate("TraceList", p, shards=1)
    with ThreadPoolExecutor(vlib.CORES) as ex:
        for i, (_, b, _) in enumerate(ex.map(one, range(len(parts)))):
            for k, what in b:
                x = parts[i][k]
                c.violation("list", "GET /%s of type %s %s" % (x["kind"], x["type"] or "none", what), {k: v for k, v in x.items() if k != "reg"})
    c.count("traces_validated_against_impl", n)
    for x in recs[1:200:33]:
        c.sample({"kind": x["kind"], "type": x["type"], "entries": len(x["got"])})
    c.log("TraceList: %d listings, %d rejected" % (n, len(c.violations)))


def run(c):
    build_oracle(c)
    exe = os.path.join(build_bins(c), "prexel-server")
    server = Server(exe)
    try:
        {"P21": p21, "P24": p24}[c.prop](c, server)
    finally:
        server.stop()
