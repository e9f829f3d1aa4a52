"""pyvc: a deductive verifier for a subset of Python (see /verif/DESIGN.md)."""
