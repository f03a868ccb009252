SPECIFICATION Spec
INVARIANTS Lives Emit
CHECK_DEADLOCK FALSE
CONSTANTS Alive = 4
          Grace = 0
          Ping = 4
          Dead = 4
          Horizon = 10
