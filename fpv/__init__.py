"""Property-based verification machinery for UMR-CNRM/footprints."""
