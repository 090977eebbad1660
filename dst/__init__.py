"""Deterministic simulation of SuMPF: see /verif/DESIGN.md."""
