INIT initPrice
NEXT stepTrade
INVARIANT sound
CHECK_DEADLOCK FALSE
