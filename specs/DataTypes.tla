----------------------------- MODULE DataTypes ------------------------------
(* User-visible data types and their counterparts (property C04).                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Scalars == {"string", "int8", "int16", "int32", "int64", "decimal", "boolean", "timestamp"}
ListOf(x) == "list:" \o x
Lists == {ListOf(x) : x \in Scalars}
Types == Scalars \cup Lists
Elem(x) == IF x \in Scalars THEN x ELSE CHOOSE y \in Scalars : ListOf(y) = x
Precision == 28
Scale == 16
Short0 == [string |-> "str", int8 |-> "i8", int16 |-> "i16", int32 |-> "i32", int64 |-> "i64", decimal |-> "d", boolean |-> "b", timestamp |-> "ts"]
Short(x) == IF x \in Scalars THEN Short0[x] ELSE "l_" \o Short0[Elem(x)]
Engine0 == [string |-> "Utf8", int8 |-> "Int8", int16 |-> "Int16", int32 |-> "Int32", int64 |-> "Int64", boolean |-> "Boolean",
            decimal |-> "Decimal128(28, 16)", timestamp |-> "Timestamp(Millisecond, None)"]
Store0 == [Engine0 EXCEPT !.decimal = "Decimal(28, 16)"]
Engine(x) == Engine0[Elem(x)]
Store(x) == Store0[Elem(x)]
Rejected == "rejected"
(* the reverse direction: a foreign type is one of ours or has no counterpart *)
Back(tab, y) == IF \E x \in Scalars : tab[x] = y THEN CHOOSE x \in Scalars : tab[x] = y ELSE Rejected
TsTypes == {"Timestamp(" \o u \o ", " \o z \o ")" : u \in {"Second", "Millisecond", "Microsecond", "Nanosecond"}, z \in {"None", "Some(\"UTC\")"}}
DecTypes == {"Decimal128(10, 2)", "Decimal(10, 2)"}
(* a timestamp of another unit or a decimal of another precision may be taken as ours or rejected *)
BackAllowed(tab, y) == {Back(tab, y)} \cup (IF y \in TsTypes THEN {"timestamp"} \cup (IF Back(tab, y) = Rejected THEN {Rejected} ELSE {}) ELSE {})
                        \cup (IF y \in DecTypes THEN {"decimal", Rejected} ELSE {})
Groups == 5
GroupCol(s) == "group_" \o s
ASSUME Cardinality({Short(x) : x \in Types}) = Cardinality(Types)
ASSUME \A x \in Scalars : Back(Engine0, Engine(x)) = x /\ Back(Store0, Store(x)) = x
=============================================================================
