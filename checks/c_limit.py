"""P22: the server's rate limit."""
import json, os, random, threading, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import vlib
from checks.c_repl import build_bins
from checks.http import Conn, Server, request

QUOTA, WINDOW = 100, 60000
TICK = 24.0             # a window of the model, 3 ticks, ends half a tick from any request
BLOCK = 25              # requests for one of the model's


def some(r, spoof):
    h = []
    if spoof and r.random() < .5:
        h = [r.choice(["x-forwarded-for: 10.0.%d.%d" % (r.randrange(256), r.randrange(256)), "forwarded: for=10.1.0.%d" % r.randrange(256), "x-real-ip: 10.2.0.%d" % r.randrange(256),
                       "cookie: X-Ratelimit-Id=%d" % r.randrange(10 ** 6), "cookie: X-Ratelimit-Id=%d; HttpOnly" % r.randrange(10 ** 6), "x-ratelimit-id: %d" % r.randrange(10 ** 6), "user-agent: %d" % r.random(), "host: h%d" % r.randrange(1000)])]
    k = r.random()
    if k < .45:
        return request("POST", "/eval", b'{"expression":"%d+1"}' % r.randrange(100), h)
    if k < .55:
        return request("POST", "/eval?only_result=true", b'{"expression":"x","variables":{"x":2}}', h)
    if k < .65:
        return request("POST", "/eval", r.choice([b'{"expression":"1/0"}', b'{"expression":"(","type":"float"}', b'{"expression":"34!","type":"integer"}']), h)
    if k < .75:
        return request("POST", "/eval", r.choice([b"", b"{", b'{"type":"float"}', b"\xff"]), h)
    if k < .9:
        return request("GET", r.choice(["/operators", "/constants?type=float", "/functions?type=binary", "/operators/"]), None, h)
    return request(r.choice(["GET", "GET", "HEAD", "OPTIONS", "PUT", "DELETE", "PATCH"]), r.choice(["/", "/nope", "/eval", "/eval", "/operators", "/functionsx"]), None, h)


class Run:
    def __init__(self, server, wires, ip, tick, fresh=False):
        self.server, self.wires, self.ip, self.tick, self.fresh = server, wires, ip, tick, fresh
        self.gate = None

    def go(self, t0):
        ms = lambda: (time.monotonic() - t0) * 1000
        out, conn, waiting = [], None, []
        todo = list(self.wires)
        try:
            if self.gate:
                conn = Conn(self.server.port, self.ip, 30)
                self.gate.wait()
            while todo:
                if conn is None:
                    conn = Conn(self.server.port, self.ip, 30)
                waiting.append(ms())
                wire = todo.pop(0)
                conn.send(wire)
                code, head, body = conn.recv(wire.startswith(b"HEAD "))
                n = lambda f: int(head.get("x-ratelimit-" + f, "-1"))
                out.append({"ip": self.ip, "tick": self.tick, "inv": int(waiting.pop(0)), "resp": int(ms()) + 1, "code": code, "limit": n("limit"), "remaining": n("remaining"), "reset": n("reset"), "empty": not body})
                if self.fresh or head.get("connection", "").lower() == "close":
                    conn.close()
                    conn = None
        except (OSError, ValueError, threading.BrokenBarrierError):
            out += [{"ip": self.ip, "tick": self.tick, "inv": int(t), "resp": int(ms()) + 1, "code": 0, "limit": -1, "remaining": -1, "reset": -1, "empty": True} for t in waiting or [ms()]]
        if conn:
            conn.close()
        return out


def runs_of(r, server, ip, tick, n):
    """n requests of one client, in some manner."""
    spoof = r.random() < .5
    wires = [some(r, spoof) for _ in range(n)]
    m = r.choice(["one", "fresh", "many", "many"])
    if m == "many":
        k = r.choice([2, 4, 8, 20])
        return [Run(server, wires[i::k], ip, tick) for i in range(k) if wires[i::k]]
    return [Run(server, wires, ip, tick, m == "fresh")]


def run(c):
    exe = os.path.join(build_bins(c), "prexel-server")
    r = random.Random("limit%d" % c.seed)
    kw = {"Clients": {1, 2}, "Workers": {1, 2}, "Quota": 2, "Window": 2, "Horizon": 5, "Requests": c.pick(6, 8)}
    c.model("MCLimit", ["AsSpecified", "Bounded", "Earned"], consts=dict(kw, Atomic=True), spec="Spec")
    c.model("MCLimit", ["AsSpecified"], consts=dict(kw, Atomic=True, Requests=4, Horizon=3), spec="Spec", properties=["Decided"])
    if not c.tlc("MCLimit", ["AsSpecified"], consts=dict(kw, Atomic=False, Requests=4), spec="Spec").get("failed"):
        raise vlib.ToolError("the model does not tell a count in two steps")
    out = c.path("windows")
    ticks = c.pick(7, 9)
    c.model("MCWindows", ["Fair", "Emitted"], consts={"Quota": QUOTA // BLOCK, "Window": 3, "Ticks": ticks, "Sizes": {0, 1, 2, 3, 5}}, env={"VH_OUT": out}, spec="Spec")
    plans = [json.loads(json.loads(l)) for l in open(out)]
    c.log("MCLimit checked, two steps are told; %d plans over %d ticks" % (len(plans), ticks))
    r.shuffle(plans)
    plans = [p for p in plans if sum(x["n"] for x in p) >= 4][:c.pick(120, 400)]
    server = Server(exe)
    t0 = time.monotonic()
    recs, lock = [], threading.Lock()

    def all_of(runs, width):
        with ThreadPoolExecutor(width) as ex:
            for o in ex.map(lambda x: x.go(t0), runs):
                recs.extend(o)
    try:
        # one burst of each client, its connections let go at once
        bursts = 0
        for b in range(c.pick(80, 400)):
            k = [8, 16, 40, 100][b % 4]
            gate = threading.Barrier(k, timeout=30)
            runs = [Run(server, [some(r, False) for _ in range([16, 10, 4, 2][b % 4])], "127.21.%d.%d" % (b // 200, b % 200 + 1), 0) for _ in range(k)]
            for x in runs:
                x.gate = gate
            all_of(runs, k)
            bursts += 1
        c.log("%d bursts" % bursts)
        # the quota of a few clients while very many others come by
        few = ["127.23.250.%d" % (i + 1) for i in range(6)]
        one = lambda ip, n: Run(server, [some(r, False) for _ in range(n)], ip, 0)
        many = c.pick(5000, 30000)
        all_of([one(ip, 60) for ip in few], 6)
        all_of([one("127.23.%d.%d" % (i // 200, i % 200 + 1), 1) for i in range(many)], 16)
        all_of([one(ip, 60) for ip in few], 6)
        c.log("%d clients" % many)
        # the model's plans, each by another client, at the same ticks
        start = time.monotonic() + 1
        drift = 0
        edges, near = [], []

        def edge():
            """Clients that come back just before or just after their window's end."""
            time.sleep(max(0, start + TICK / 3 - time.monotonic()))
            todo = []
            for i in range(48):
                ip = "127.24.0.%d" % (i + 1)
                x = one(ip, 1).go(t0)
                edges.extend(x)
                d = [-900, -600, -400, -200, -100, -40, 40, 100, 200, 400, 600, 900][i % 12]
                todo.append(((x[0]["inv"] if d < 0 else x[0]["resp"]) + WINDOW + d, ip))
            for at, ip in sorted(todo):
                time.sleep(max(0, t0 + at / 1000 - time.monotonic()))
                x = one(ip, 1).go(t0)
                edges.extend(x)
                near.append(x[0]["inv"] - at)
        edger = threading.Thread(target=edge)
        edger.start()
        for k in range(ticks):
            at = start + k * TICK
            time.sleep(max(0, at - time.monotonic()))
            runs = []
            for i, p in enumerate(plans):
                if p[k]["n"]:
                    runs.append(runs_of(r, server, "127.22.%d.%d" % (i // 200, i % 200 + 1), k, p[k]["n"] * BLOCK))
            r.shuffle(runs)
            all_of([x for q in runs for x in q], 63)
            drift = max(drift, time.monotonic() - at)
            if not server.alive():
                break
        edger.join(120)
        recs.extend(list(edges))
        c.count("at_the_edge_of_a_window", len(near))
        c.log("%d plans, a tick took at most %.1fs" % (len(plans), drift))
        if not server.alive():
            c.violation("dead", "the server has died", {})
    finally:
        server.stop()
    if drift > TICK / 2 - 2:
        raise vlib.ToolError("too slow to tell the windows apart")
    recs.sort(key=lambda x: (x["ip"], x["tick"], x["code"] == 429, -x["remaining"], x["resp"]))
    last = None
    for x in recs:
        x["first"] = x["ip"] != last
        last = x["ip"]
    # how many each client was to be admitted at each tick
    got = Counter((x["ip"], x["tick"]) for x in recs if x["code"] not in (0, 429))
    for i, p in enumerate(plans):
        ip = "127.22.%d.%d" % (i // 200, i % 200 + 1)
        for k, x in enumerate(p):
            if got[ip, k] != x["ok"] * BLOCK:
                c.violation("plan", "a client that makes %s requests at each third of a window is admitted %s, not %s" % ([y["n"] * BLOCK for y in p], [got[ip, j] for j in range(len(p))], [y["ok"] * BLOCK for y in p]), p)
                break
    tr = c.path("limit.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceLimit", tr, consts={"Quota": QUOTA, "Window": WINDOW}, groups=lambda l: json.loads(l)["first"])
    c.count("traces_validated_against_impl", bursts + len(plans))
    c.count("requests", len(recs))
    c.count("refused", sum(x["code"] == 429 for x in recs))
    for i, what in bad:
        c.violation("limit", "request %s of client %s at %d ms %s" % (i, recs[i]["ip"], recs[i]["inv"], what), recs[max(0, i - 3):i + 2])
    for p in plans[:4]:
        c.sample({"requests": [x["n"] * BLOCK for x in p], "admitted": [x["ok"] * BLOCK for x in p]})
    c.log("TraceLimit: %d requests, %d rejected" % (len(recs), len(bad)))
