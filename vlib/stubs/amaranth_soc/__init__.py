"""Minimal offline stand-in for amaranth-soc (not installed in the sandbox).

Only what sentinel.top / sentinel.formal / sentinel.gen and the peripherals of examples/attosoc.py import.
"""
from . import wishbone, csr, memory  # noqa: F401
