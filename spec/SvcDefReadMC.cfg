SPECIFICATION Spec
CONSTANTS Global = FALSE
          Calls = 3
INVARIANT Faithful
CHECK_DEADLOCK FALSE
