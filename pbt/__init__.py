"""Property-based checking framework for PyConform (see /verif/DESIGN.md)."""
