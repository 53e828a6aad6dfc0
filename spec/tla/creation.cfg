INIT initCreation
NEXT stepCreation
INVARIANT sound
INVARIANT founded
INVARIANT issued
CHECK_DEADLOCK FALSE
