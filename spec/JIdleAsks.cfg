SPECIFICATION Spec
INVARIANT JudgedAsks
CHECK_DEADLOCK FALSE
CONSTANTS Alive = 120000
          Grace = 5000
          Stuck = 600000
