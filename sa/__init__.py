"""Static analyser for /repo (abstract interpretation of its syntax tree)."""
