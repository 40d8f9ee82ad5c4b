CONSTANTS Layers = 2
MaxOps = 6
MaxRuns = 2
SPECIFICATION MSpec
INVARIANT Reproducible Distinct OwnWeights
CHECK_DEADLOCK FALSE
