"""A small stateless / explicit-state model checker for the real csvw code (see DESIGN.md)."""
