INIT initStable
NEXT stepTrade
INVARIANT sound
CHECK_DEADLOCK FALSE
