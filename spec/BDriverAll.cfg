SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxIn = 1
  Scenarios <- Space
  MicroSteps = TRUE
INVARIANTS OthersUntouched OutputsMade NothingFromFailed FailsForAReason PrivateStaysPrivate
