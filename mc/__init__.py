"""Bounded model-checking harness for MrMustard (see DESIGN.md)."""
