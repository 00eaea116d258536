"""Property-based testing of DGApy: harness package (see /verif/DESIGN.md)."""
