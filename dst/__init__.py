"""Deterministic simulation with fault injection for Timeseria."""
