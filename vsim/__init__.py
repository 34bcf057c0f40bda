"""Deterministic simulation of ufunclab."""
