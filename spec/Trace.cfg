SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT P = 3
