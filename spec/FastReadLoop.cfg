SPECIFICATION Spec
CONSTANTS S = 4 MaxOffers = 3
INVARIANTS C16Once C16All C16Bounds
CHECK_DEADLOCK FALSE
