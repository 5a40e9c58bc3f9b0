"""Runtime monitors for QLVL/nephosem (see ../DESIGN.md)."""
