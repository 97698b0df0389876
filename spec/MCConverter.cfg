SPECIFICATION MCSpec
CONSTANTS
  MaxIn = 2
  Handles = {1}
VIEW MCView
INVARIANTS TypeOK CompleteAgrees DeliveredIsPrefix PendIsTrue OracleIsFn
CHECK_DEADLOCK FALSE
