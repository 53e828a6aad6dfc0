INIT initRolesOnce
NEXT stepRoles
INVARIANT sound
CHECK_DEADLOCK FALSE
