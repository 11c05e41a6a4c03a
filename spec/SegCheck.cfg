SPECIFICATION Spec
CONSTANTS N = 9
          MaxSegs = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
