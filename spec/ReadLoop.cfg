SPECIFICATION Fair
CONSTANTS S = 4 MaxOffers = 3
INVARIANTS C16Once C16All C16Bounds
PROPERTY C16Stops
CHECK_DEADLOCK FALSE
