CONSTANT Programs = "unused"
SPECIFICATION UniverseSpec
INVARIANT Lemmas
PROPERTY Terminates
CHECK_DEADLOCK FALSE
