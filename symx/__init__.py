"""symx: dynamic symbolic execution of real Python code with z3.

See /verif/DESIGN.md, section "Engine".
"""
