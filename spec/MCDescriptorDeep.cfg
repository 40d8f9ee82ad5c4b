SPECIFICATION MSpec
CONSTANTS
  SeedKey <- SK
  Alphabet = {97, 98, 40, 41, 61, 32, 49}
  MaxLen = 9
  Slack = 1
INVARIANTS Accepts Parts Injected Export
CHECK_DEADLOCK FALSE
