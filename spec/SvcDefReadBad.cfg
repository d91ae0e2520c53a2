SPECIFICATION Spec
CONSTANTS Global = TRUE
          Calls = 3
INVARIANT Faithful
CHECK_DEADLOCK FALSE
