"""Property-based checks for qmeq (see /verif/DESIGN.md)."""
