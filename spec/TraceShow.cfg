SPECIFICATION Spec
CONSTANTS
  WIDE = 15
  HEAD = 5
  LONG = 10
