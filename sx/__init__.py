"""sx: solver-based checking of the real PyrusGeom code (see ../DESIGN.md)."""
