"""Static analyses specific to surface_potential_analysis."""
