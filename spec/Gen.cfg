SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 3
  SEED = 1
  N = 50
  PROFILE = "C03"
