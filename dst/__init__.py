"""Deterministic simulation with fault injection for paramz (see DESIGN.md)."""
