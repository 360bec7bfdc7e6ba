SPECIFICATION TraceSpec
ALIAS Shown
CHECK_DEADLOCK TRUE
