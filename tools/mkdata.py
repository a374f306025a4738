#!/usr/bin/env python3
"""Writes spec/data/unicode.json: the Unicode facts the specification relies on (from Python's own Unicode tables,
independent of Rust's): the lower case of every character that has one, and the whitespace."""
import json, os, unicodedata
d = os.path.join(os.path.dirname(__file__), '..', 'spec', 'data'); os.makedirs(d, exist_ok=True)
enc = lambda c: c if ' ' <= c <= '~' else 'U+%04X' % ord(c)
fold = {}
for i in range(0x110000):
    if 0xD800 <= i <= 0xDFFF: continue
    c = chr(i)
    # the simple/special lower case of a single character, as Unicode's SpecialCasing gives it without context
    l = c.lower() if i != 0x3a3 else '\u03c3'
    if l != c: fold[enc(c)] = [enc(x) for x in l]
ws = [9,10,11,12,13,0x20,0x85,0xa0,0x1680]+list(range(0x2000,0x200b))+[0x2028,0x2029,0x202f,0x205f,0x3000]
json.dump({"fold": fold, "control": [enc(chr(x)) for x in list(range(32)) + list(range(127, 160))], "space": [enc(chr(x)) for x in ws]}, open(os.path.join(d,'unicode.json'),'w'), ensure_ascii=True)
print(len(fold), len(ws), unicodedata.unidata_version)
