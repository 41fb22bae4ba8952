"""gpsa: repository-specific static analyser for GPSKet (no code of /repo is ever imported or run)."""
