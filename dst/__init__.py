"""Deterministic simulation of pyactr with fault injection."""
