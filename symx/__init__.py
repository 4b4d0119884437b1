"""Symbolic execution of the real dxss source (see /verif/DESIGN.md)."""
