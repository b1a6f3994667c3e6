CONSTANT Programs <- LoadPrograms
CONSTANT Observations <- LoadObservations
CONSTANT View <- LoadView
INIT TraceInit
NEXT TraceNext
CHECK_DEADLOCK FALSE
INVARIANT Lemmas
VIEW Fingerprint
