INIT initTrade
NEXT stepTrade
INVARIANT sound
CHECK_DEADLOCK FALSE
