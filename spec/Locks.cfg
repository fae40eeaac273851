INIT Init
NEXT Next
INVARIANTS TypeOk NoCircle
CHECK_DEADLOCK FALSE
