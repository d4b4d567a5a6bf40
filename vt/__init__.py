"""Property-based verification machinery for tomopy (see /verif/DESIGN.md)."""
