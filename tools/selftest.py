"""setup: nothing to build (pure Python); check that the interpreter, the oracles and the tree are there"""
import json
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import random
from vk import axdr  # noqa: E402

r = random.Random(1)
for _ in range(2000):
    axdr.encode(axdr.gen_value(r, 3))
assert axdr.encode(("Structure", [("LongUnsigned", 258), ("BitString", "101")])) == bytes.fromhex("020212010204 03a0".replace(" ", "")), "oracle"
assert (axdr.weekday(2024, 2, 29), axdr.weekday(2000, 1, 1), axdr.weekday(1999, 12, 31)) == (4, 6, 5)
for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
    assert os.path.exists(os.path.join(ROOT, "vk", "props", c["property"].lower() + ".py")), c
print("ok")
