SPECIFICATION TSpec
CONSTANTS
  SeedKey <- SK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
