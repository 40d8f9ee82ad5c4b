CONSTANTS Layers = 2
MaxOps = 7
MaxRuns = 3
SPECIFICATION MSpec
INVARIANT Reproducible Distinct OwnWeights
CHECK_DEADLOCK FALSE
