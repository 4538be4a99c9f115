SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxV = 6
  MaxA = 16
PROPERTIES Momentum Lost Elastic
CHECK_DEADLOCK FALSE
