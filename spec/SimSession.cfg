SPECIFICATION SSpec
CONSTANTS Default = "unnamed" MaxOps = 16 Files = {"a", "b"} Names = {"x", "yy", "unnamed"} Epochs = {0, 1}
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
