"""symx: symbolic execution of the real pyuvdata sources (see DESIGN.md)."""
