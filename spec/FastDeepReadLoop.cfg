SPECIFICATION Spec
CONSTANTS S = 5 MaxOffers = 4
INVARIANTS C16Once C16All C16Bounds
CHECK_DEADLOCK FALSE
