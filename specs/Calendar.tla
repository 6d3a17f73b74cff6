------------------------------ MODULE Calendar ------------------------------
(* Proleptic Gregorian calendar over an abstract instant [d, s, n]: days since 1970-01-01,        *)
(* second of day, nanosecond. TLC integers are 32 bit, so instants are never flattened.           *)
EXTENDS Integers, Sequences, TLC
Instants(D, S, N) == [d : D, s : S, n : N]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> IF Leap(y) THEN 29 ELSE 28
DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      doy == (153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Civil(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      y == yoe + era * 400
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> IF m <= 2 THEN y + 1 ELSE y, m |-> m, d |-> d]
Monday0(z) == (z + 3) % 7                       \* 0 = Monday; day 0 was a Thursday
Lt(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s < b.s) \/ (a.d = b.d /\ a.s = b.s /\ a.n < b.n)
Le(a, b) == a = b \/ Lt(a, b)
AddDays(t, k) == [t EXCEPT !.d = @ + k]
AddHours(t, k) == LET x == t.s + (k % 24) * 3600 IN [d |-> t.d + (k \div 24) + x \div 86400, s |-> x % 86400, n |-> t.n]
AddMonths(t, k) ==                               \* calendar months, day clamped to the month's end
  LET c == Civil(t.d)
      mm == c.y * 12 + (c.m - 1) + k
      y == mm \div 12
      m == (mm % 12) + 1
      d == IF c.d > DaysIn(y, m) THEN DaysIn(y, m) ELSE c.d
  IN [t EXCEPT !.d = DaysFromCivil(y, m, d)]
Pad2(k) == IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
Text(t) == LET c == Civil(t.d) IN ToString(c.y) \o "-" \o Pad2(c.m) \o "-" \o Pad2(c.d) \o "T" \o Pad2(t.s \div 3600) \o ":" \o Pad2((t.s % 3600) \div 60) \o ":" \o Pad2(t.s % 60)
=============================================================================
