CONSTANTS MaxLen = 14
Kind = "settings"
SPECIFICATION SSpec
INVARIANT SimExport
CHECK_DEADLOCK FALSE
