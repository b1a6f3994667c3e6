CONSTANT Scenarios = "unused"
SPECIFICATION GenerateSpec
INVARIANT ToolLemmas
PROPERTY Ends
CHECK_DEADLOCK FALSE
