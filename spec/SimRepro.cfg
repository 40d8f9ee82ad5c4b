CONSTANTS Layers = 2
MaxOps = 22
MaxRuns = 3
SPECIFICATION SSpec
INVARIANT SimExport
CHECK_DEADLOCK FALSE
