"""Stand-in, see package."""
