------------------------------ MODULE Columns -------------------------------
(* Storage columns of properties. Table 9 is the events table, g in 0..4 the table of group g.     *)
(* A group property has its column in both its group's table and the events table.                 *)
EXTENDS Naturals, Sequences, FiniteSets
Tables(p) == IF p.g = 9 THEN {9} ELSE {p.g, 9}
(* the storage type of a property: its dictionary's key type, if it has one *)
Storage(dt, dict) ==
  CASE dict = "Int8" -> "Int8" [] dict = "Int16" -> "Int16" [] dict = "Int32" -> "Int32" [] dict = "Int64" -> "Int64"
    [] dt = "String" -> "Utf8" [] dt = "Timestamp" -> "Timestamp(Millisecond, None)" [] dt = "Decimal" -> "Decimal128(28, 16)" [] OTHER -> dt
(* may a property own column col, next to the columns that were ever given out in its project? *)
Free(given, sys, name, col) == \A c \in given : c.col = col => sys /\ c.sys /\ c.name = name
OwnColumn(props) == \A a, b \in props : a # b /\ a.p = b.p /\ a.col = b.col => a.sys /\ b.sys /\ a.name = b.name
=============================================================================
