INIT Init
NEXT Next
INVARIANTS TypeOk Step_ State_ Emit
CHECK_DEADLOCK FALSE
