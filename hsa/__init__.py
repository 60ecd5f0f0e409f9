"""hsa: a static analyser specific to the hyper-shell code base (syntax tree in, verdict out)."""
