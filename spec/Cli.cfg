INIT TraceInit
NEXT TraceNext
INVARIANT CliLemmas
CHECK_DEADLOCK FALSE
