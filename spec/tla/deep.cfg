INIT initDeep
NEXT stepTrade
INVARIANT sound
CHECK_DEADLOCK FALSE
