#!/usr/bin/env python3
"""One-off: flatten the *pinned* schemas (commit 9532848) into spec/vocab.json.

The result is frozen: checks read spec/vocab.json, never regenerate it, so a change to a
schema file in /repo is judged against the vocabulary as published at the pinned commit.
usage: tools/build_vocab.py /path/to/schemas > spec/vocab.json
"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.flatten import vocabulary

json.dump(vocabulary(sys.argv[1]), sys.stdout, indent=1, sort_keys=True)
