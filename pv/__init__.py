"""Property-based testing harness for hera_pspec."""
