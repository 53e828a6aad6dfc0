INIT initRoles
NEXT stepRoles
INVARIANT sound
CHECK_DEADLOCK FALSE
