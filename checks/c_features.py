"""P26: the optional features of the crate."""
import importlib, itertools, os, subprocess, time
import vlib

NUMBERS = ["decimal", "complex", "binary"]
OPTIONS = ["docs", "linked-hashmap"]


def selections(c):
    every = [list(s) for n in range(6) for s in itertools.combinations(NUMBERS + OPTIONS, n)]
    if c.thorough():
        return every
    # each feature alone, each left out, none
    return [s for s in every if len(s) in (0, 1, 4)]


def builds(c):
    """The crate is built with each selection."""
    target = c.path("target")
    todo = selections(c)
    for s in todo:
        r = subprocess.run(["cargo", "check", "--offline", "--quiet", "--lib", "--no-default-features", "--features", ",".join(s), "--target-dir", target],
                           cwd=os.path.join(vlib.REPO, "prexel"), env=vlib.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            errs = [l for l in r.stdout.split("\n") if l.startswith("error")]
            if not errs:
                raise vlib.ToolError("cargo check: " + r.stdout[-2000:])
            c.violation("build:" + "+".join(s), "with the features {%s} the crate does not build: %s" % (", ".join(s), errs[0][:300]), {"features": s})
    c.count("feature_selections_built", len(todo))
    c.log("%d selections of features built" % len(todo))


def run(c):
    builds(c)
    if c.violations:
        return
    for given in [[]] + c.pick([], [["docs"], ["linked-hashmap"]]):
        c.vh = None
        c.build(given)
        label = "with the optional features {%s}: " % ", ".join(given)
        for prop, module in [("P15", "c_vocab"), ("P16", "c_fun"), ("P12", "c_dec"), ("P08", "c_ctx"), ("P07", "c_expr"), ("P13", "c_cpx")] + c.pick([], [("P11", "c_ints"), ("P14", "c_bits"), ("P09", "c_ctx"), ("P10", "c_total"), ("P23", "c_random"), ("P17", "c_expr"), ("P18", "c_fold"), ("P25", "c_rules")]):
            s = vlib.Check(prop, "quick", c.seed)
            s.vh = c.vh
            importlib.import_module("checks." + module).run(s)
            for k, v in s.cov.items():
                if k == "samples":
                    for x in v[:1]:
                        c.sample({"features": given, "sample": x})
                else:
                    c.count(k if k in c.cov else k + "_" + prop, v)
            for key, what, data in s.violations:
                c.violation(prop + ":" + key, label + what, data)
            c.log("%s%s, %d violations" % (label, prop, len(s.violations)))
