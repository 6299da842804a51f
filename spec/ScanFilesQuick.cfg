SPECIFICATION Spec
CONSTANTS Nums = {1, 12}
          Ids = {5, 55}
          MaxFiles = 2
INVARIANTS Sound Complete Independent
CHECK_DEADLOCK FALSE
