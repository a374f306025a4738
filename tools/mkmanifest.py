#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
EXPR = "TLA+/TLC: bounded token sequences model-checked and replayed; recorded traces validated against the spec"
CHECKS = {
    "P01": ("model_checking", EXPR, "all token sequences to 9 tokens over several operator tables; long texts over random tables by trace validation"),
    "P02": ("model_checking", EXPR, "all sequences to 4-6 tokens over full alphabets, mutated texts by trace validation"),
    "P03": ("model_checking", EXPR, "all call nestings to 7-10 tokens; deeper ones by trace validation"),
    "P04": ("model_checking", EXPR, "all sequences to 7 tokens with prefix, postfix and overloaded operators; both the token and the text level"),
    "P05": ("model_checking", EXPR, "all juxtapositions to 5-7 tokens with implicit multiplication on and off, several precedences of `*`"),
    "P06": ("model_checking", "TLA+/TLC: character machine model-checked on all short texts and replayed; recorded texts validated", "all texts to 3-6 characters over four alphabets; random long texts"),
    "P07": ("model_checking", EXPR, "all texts to 4 raw tokens over names in several spellings; random vocabularies with Unicode names"),
    "P08": ("model_checking", "TLA+/TLC: registration histories of Context.tla model-checked and every transition replayed; recorded histories validated", "all histories to 3-4 registrations over a small name pool with every spelling; long random histories by trace validation"),
    "P09": ("model_checking", "TLA+/TLC: evaluation histories of Context.tla replayed; histories of the shipped contexts validated against the purity spec", "all interleavings of evaluations, changes and clones to a bound; random histories in every shipped context"),
    "P10": ("model_checking", "TLA+/TLC: texts generated from the lexical spec and run in every shipped context; outcome classes validated", "all raw-token texts to a bound plus random, mutated, deep and extreme texts under a watchdog"),
    "P11": ("model_checking", "TLA+/TLC: integer calculator model-checked and its behaviours replayed; all i8 results and recorded wide results validated against Ints.tla over Big.tla", "i8 exhaustively for + - * / mod; 2-step calculators over boundary values; boundary-seeking operands, lists and expressions in 17 types"),
    "P12": ("model_checking", "TLA+/TLC: a toy decimal type model-checked against integer arithmetic; recorded results of the real decimals validated against Dec.tla over Big.tla", "calculators over the toy type; limit-seeking operands, lists, powers, factorials and expressions, judged exactly"),
    "P13": ("model_checking", "TLA+/TLC: complex algebra laws model-checked; generated calculators replayed; recorded expressions validated against exact rational complex arithmetic", "all short calculators over chosen literals; random expressions with every literal form, implicit products and powers"),
    "P14": ("model_checking", "TLA+/TLC: two's-complement operations model-checked at small widths; generated expressions with every alias replayed; recorded results validated bit by bit", "all value pairs of 4 (8) bits; all operator pairs; random literals, signed operands and nested expressions at 128 bits"),
    "P15": ("model_checking", "TLA+/TLC: the vocabulary and arity tables of Vocab.tla; every use enumerated by TLC, replayed, and the outcomes validated", "every function with 0..8 (40) arguments in 13 shipped contexts; every operator, constant, alias and spelling"),
    "P16": ("model_checking", "TLA+/TLC: fixed-point reference functions of Fixed.tla model-checked against their defining identities; recorded results of every function validated against RealFun.tla", "every named function and floating operator in f64, f32, unchecked f64, decimal, complex and four integer contexts, on grids and random arguments inside, at the edge of and outside the domain"),
    "P17": ("model_checking", EXPR, "token sequences to 5 tokens; random texts through five splitters and three evaluators"),
    "P18": ("model_checking", "TLA+/TLC: case folding of Fold.tla model-checked over Unicode's folding data; pairs and triples replayed and validated", "all pairs of short texts over confusable letters, every code point that folds, random long texts"),
    "P19": ("model_checking", "TLA+/TLC: the REPL's line editor, history and session machine (Repl.tla) model-checked; transition tours replayed key by key through a pseudo terminal; recorded sessions validated", "every transition of the bounded machine for history sizes 0-3; random sessions of all five number types"),
    "P20": ("model_checking", "TLA+/TLC: the command line's argument machine (Cli.tla) model-checked and every command line replayed in the real program; recorded runs validated", "all command lines to 4 (5) arguments over a small alphabet; thousands of expressions in the five types; every listing in every spelling of the options"),
    "P21": ("model_checking", "TLA+/TLC: connections and request tasks (MCServer) model-checked in every interleaving and their schedules replayed on the real server; recorded requests validated against Server.tla", "all schedules of 3 requests over 2 connections (samples of them replayed in the quick tier); 20,000 (120,000) random bodies over a thousand concurrent connections, each judged with the library's answer to it alone"),
    "P22": ("model_checking", "TLA+/TLC: the shared table of windows (MCLimit) model-checked against Limit.tla; client plans of MCWindows replayed in real time; recorded requests validated (linearized) against Limit.tla", "two clients, two workers, all interleavings to 6 (8) requests; 80 (400) bursts of up to 100 simultaneous connections; 120 (400) clients over 7 (9) thirds of a window"),
    "P24": ("model_checking", "TLA+/TLC: recorded listings, among evaluations on concurrent connections, validated against Vocab.tla and the library's registrations", "every type, listing and spelling of the query, in random histories of up to 20 requests on each of 250 (3000) connections"),
    "P25": ("model_checking", "TLA+/TLC: the rule-list splitter machine (Splitter.tla) model-checked against splitting by positions on all short texts under many rule lists and replayed through the real builders; recorded texts validated", "texts to 2-6 (9) characters under some 130 (400) random and fixed builds; 7,500 (90,000) random texts under 300 (1500) random builds"),
    "P26": ("model_checking", "TLA+/TLC: the specifications of contexts, vocabularies, expressions and functions (Context, Vocab, Grammar, Fixed, RealFun, Dec, Cpx, Ints) model-checked, replayed and validated against the library built without its optional features", "11 (all 32) feature selections built; the checks of P07, P08, P12, P13, P15, P16 (thorough: also P09-P11, P14, P17, P18, P23, P25) repeated on the build without docs and linked-hashmap"),
    "P27": ("model_checking", "TLA+/TLC: the calls of the evaluation machine (Shunting.tla, Causes.tla) model-checked over token sequences with failing functions and replayed call by call; recorded calls and errors validated", "all sequences to 6-9 (7-11) tokens with some function or operator failing; 20,000 random texts and token lists; 10,000 (100,000) failing operations and expressions of 16 integer types and decimals"),
    "P23": ("model_checking", "TLA+/TLC: the scaling machine of MCRandom model-checked; recorded draws of the real generator validated against Random.tla", "zero to two bounds of every size and sign, equal, inverted and non-real ones, up to 400 draws each, in 11 contexts"),
}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "for d in harness oracle; do (cd $d && PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo build --offline --quiet) || exit 1; done",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interface only", "source_commits": []},
    "checks": [],
    "not_applicable": [],
}
for p, (lvl, tech, note) in sorted(CHECKS.items()):
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s quick" % p, "thorough_cmd": "python3 run.py check %s thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": lvl, "level_note": note})
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in CHECKS:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
