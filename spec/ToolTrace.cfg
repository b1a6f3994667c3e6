CONSTANT Scenarios = "unused"
INIT TraceInit
NEXT TraceNext
INVARIANT ToolLemmas
CHECK_DEADLOCK FALSE
