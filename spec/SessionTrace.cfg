SPECIFICATION TSpec
CONSTANTS Handles <- TH
          Slots <- TG
          Iters <- TI
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
