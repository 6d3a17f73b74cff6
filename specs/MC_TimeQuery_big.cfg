SPECIFICATION Spec
CONSTANTS
  DayLo = 10900
  DayHi = 12450
  Secs = {0, 3599, 86399}
  Spans = {0, 1, 2, 5, 13}
INVARIANTS CivilInverse TruncBelow TruncIdem TruncMono Nested Tiling MonthBack
CHECK_DEADLOCK FALSE
