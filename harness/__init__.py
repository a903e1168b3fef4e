"""Property-based testing harness for jax-cfd (see /verif/DESIGN.md)."""
