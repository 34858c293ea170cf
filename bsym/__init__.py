"""Solver-based symbolic execution of the real beluga code (see ../DESIGN.md)."""
