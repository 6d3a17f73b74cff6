SPECIFICATION Spec
CONSTANTS
  DayLo = 10930
  DayHi = 11000
  Secs = {0, 3599, 86399}
  Spans = {0, 1, 2}
INVARIANTS CivilInverse TruncBelow TruncIdem TruncMono Nested Tiling MonthBack
CHECK_DEADLOCK FALSE
