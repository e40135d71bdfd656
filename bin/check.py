#!/usr/bin/env python3
"""check.py ID: decides one property (see DESIGN.md). VERIF_TIER, VERIF_SEED."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
import vlib

table = {}
for m in ("p_vec", "p_cart", "p_rec", "p_gram", "p_forest", "p_utils"):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
        table.update(importlib.import_module(m).CHECKS)
sys.exit(vlib.main(table))
