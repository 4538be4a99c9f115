SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxV = 4
  MaxA = 8
PROPERTIES Momentum Lost Elastic
CHECK_DEADLOCK FALSE
