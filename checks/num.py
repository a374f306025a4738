"""Numbers as the specification holds them."""
BASE = 10000


def big(n):
    s, m, n = (n > 0) - (n < 0), [], abs(n)
    while n:
        m.append(n % BASE)
        n //= BASE
    return {"s": s, "m": m}


def unbig(b):
    n = 0
    for d in reversed(b["m"]):
        n = n * BASE + d
    return b["s"] * n


def outcome(y, f=int):
    """An outcome of the harness with its (single) value as a big integer."""
    if y["k"] == "ok":
        return {"k": "ok", "v": big(f(y["v"][0]))}
    return {"k": y["k"], "v": big(0)}


def outs(x, f=int):
    if isinstance(x["res"], list):
        return [outcome(y, f) for y in x["res"]]
    return None


def dec(t):
    """The text of a decimal as sign, coefficient and scale."""
    neg, t = t[0] == "-", t.lstrip("-")
    w, _, f = t.partition(".")
    b = big(int(w + f))
    return {"s": -b["s"] if neg else b["s"], "m": b["m"], "e": len(f) if b["m"] else 0}


def dectext(v):
    n, e = unbig(v), v["e"]
    s = str(abs(n)).rjust(max(e, 0) + 1, "0") + "0" * max(-e, 0)
    return ("-" if n < 0 else "") + (s[:-e] + "." + s[-e:] if e > 0 else s)


def frac(t):
    """The exact fraction of a float's text, as [n, d]; None when it is not finite."""
    from fractions import Fraction
    if "inf" in t or "NaN" in t:
        return None
    f = Fraction(float(t))
    if f.denominator.bit_length() > 200:
        f = Fraction(round(f * (1 << 200)), 1 << 200)
    return {"n": big(f.numerator), "d": big(f.denominator)["m"]}
