"""Deterministic simulation of aflapan/fixedIncome: see /verif/DESIGN.md."""
