SPECIFICATION SSpec
CONSTANTS
  SeedKey <- SK
  Alphabet = {}
  MaxLen = 20
  Slack = 0
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
