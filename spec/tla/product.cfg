INIT initProduct
NEXT stepTrade
INVARIANT sound
CHECK_DEADLOCK FALSE
