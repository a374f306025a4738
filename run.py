#!/usr/bin/env python3
"""run.py check <property> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

MODULES = {}
for m, ps in {"c_expr": "P01 P02 P03 P04 P05 P06 P07 P17 P27", "c_ctx": "P08 P09", "c_total": "P10", "c_fold": "P18", "c_vocab": "P15", "c_ints": "P11", "c_bits": "P14", "c_dec": "P12", "c_cpx": "P13", "c_fun": "P16", "c_random": "P23", "c_repl": "P19", "c_cli": "P20", "c_server": "P21 P24", "c_limit": "P22", "c_rules": "P25", "c_features": "P26"}.items():
    for p in ps.split():
        MODULES[p] = m


def main():
    prop = sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vlib.Check(prop, tier, seed)
    try:
        importlib.import_module("checks." + MODULES[prop]).run(c)
        return c.finish()
    except vlib.ToolError as e:
        print("TOOL ERROR:", e, flush=True)
    except Exception:
        traceback.print_exc()
    return 2


sys.exit(main())
