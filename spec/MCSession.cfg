SPECIFICATION MSpec
CONSTANTS Default = "unnamed" MaxOps = 5 Files = {"a"} Names = {"x", "unnamed"} Epochs = {0, 1}
INVARIANTS Rows EpochRight Restores Distinct
PROPERTIES Harmless Kept Advances
CHECK_DEADLOCK FALSE
