"""Deterministic simulation of fauxdoc with fault injection."""
