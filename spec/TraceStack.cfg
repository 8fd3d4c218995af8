SPECIFICATION TSpec
CONSTANTS
  Kind = "stack"
  Strict = FALSE
  CheckEmpty = TRUE
  CheckMem = FALSE
  Owner = 7
  Thread = {1, 2, 3, 4}
INVARIANT TypeOK
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
