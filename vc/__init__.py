"""Deductive verifier for the Python subset used by openscm-twolayermodel.

Function-by-function symbolic execution of the real code objects in /repo,
against contracts (requires / ensures / frame / loop invariants), with
obligations discharged by z3, cvc5 and a rational-function normaliser.
"""
import sys

_EXTRA = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _EXTRA not in sys.path:
    sys.path.append(_EXTRA)  # z3, cvc5, sympy; appended, so /opt/venv wins
