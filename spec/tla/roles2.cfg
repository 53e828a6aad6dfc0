INIT initRoles
NEXT stepRoles2
INVARIANT sound
CHECK_DEADLOCK FALSE
