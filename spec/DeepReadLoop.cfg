SPECIFICATION Fair
CONSTANTS S = 5 MaxOffers = 4
INVARIANTS C16Once C16All C16Bounds
PROPERTY C16Stops
CHECK_DEADLOCK FALSE
