"""Reads known-findings.txt."""
import re
from pathlib import Path

FILE = Path(__file__).resolve().parent / "known-findings.txt"


def known(prop):
    """key -> description of the recorded, unrepaired findings of a property"""
    out = {}
    for ln in FILE.read_text().splitlines():
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out
