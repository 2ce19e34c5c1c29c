"""Intrinsic rules, one module per property (pNN.py, with run(cur, rep))."""
