#!/usr/bin/env python3
"""writes vlib/vocabulary.json: the constants of the library's source as it is now"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import dictionary

d = dictionary.constants(dictionary.sources())
with open(os.path.join(dictionary.HERE, "vocabulary.json"), "w") as f:
    json.dump({k: sorted(v) for k, v in d.items()}, f, indent=0, ensure_ascii=True)
    f.write("\n")
