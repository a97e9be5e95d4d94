"""symx: symbolic execution of the real elsie sources (see DESIGN.md)."""
