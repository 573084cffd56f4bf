INIT Init
NEXT Next
CONSTANT LB = 8
INVARIANTS ExpLaw ExpLn2 Slope Circle PiLaw ErfLaw
CHECK_DEADLOCK FALSE
