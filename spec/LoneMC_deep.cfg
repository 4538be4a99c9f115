SPECIFICATION Spec
CONSTANTS
  MaxG = 12
  MaxMu = 6
  MaxV = 12
  Far = 150
PROPERTIES Rest Stays Creep Slides Slows Bounces Parts
CHECK_DEADLOCK FALSE
