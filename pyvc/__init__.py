"""pyvc: verification conditions for the real CDTB source, by symbolic interpretation of its AST."""
