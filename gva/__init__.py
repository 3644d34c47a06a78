"""Gated value-graph analysis of the GEEC sources (static; never imports /repo)."""
