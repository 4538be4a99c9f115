SPECIFICATION Spec
CONSTANTS
  MaxG = 3
  MaxMu = 2
  MaxV = 3
  Far = 30
PROPERTIES Rest Stays Creep Slides Slows Bounces Parts
CHECK_DEADLOCK FALSE
