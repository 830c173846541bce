INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NF = 3 NW = 2 Mode = "chunk" Collect = "all" CheckExit = TRUE
Bad = {} Deaths = 0 Silent = {} Emit = TRUE
INVARIANT ExactlyOnce NoDoubleWork
