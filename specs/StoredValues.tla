---------------------------- MODULE StoredValues ----------------------------
(* Scalar values and patch fields written to and read from JSON (property C05).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* scalar kinds that can be stored in a filter, saved query or report *)
Storable == {"NULL", "Boolean", "Float32", "Float64", "Decimal128", "Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64",
             "Utf8", "LargeUtf8", "Binary", "LargeBinary", "FixedSizeBinary", "Date32", "Date64", "Time32Second", "Time32Millisecond",
             "Time64Microsecond", "Time64Nanosecond", "TimestampSecond", "TimestampMillisecond", "TimestampMicrosecond", "TimestampNanosecond", "IntervalYearMonth"}
(* A value that has a JSON form; refusing any other value is allowed, changing it is not. *)
MustKeep(typ, jsonable) == typ \in Storable /\ jsonable
RoundTrip(typ, val, jsonable, r) ==
  \/ r.enc = "ok" /\ r.dec = "ok" /\ r.typ = typ /\ r.val = val
  \/ ~MustKeep(typ, jsonable) /\ (r.enc = "refused" \/ r.dec = "refused")

(* patch fields *)
Unset == [set |-> FALSE, v |-> "absent"]
SetTo(x) == [set |-> TRUE, v |-> x]
Refused == [set |-> FALSE, v |-> "refused"]
(* nullable: the field itself may be set to null; texts are the JSON texts of accepted values *)
Decode(doc, accepted, nullable) ==
  CASE doc = "absent" -> Unset
    [] doc = "null" -> IF nullable THEN SetTo("null") ELSE Refused
    [] doc \in accepted -> SetTo(doc)
    [] OTHER -> Refused
Encode(p) == IF p.set THEN p.v ELSE "absent"
Apply(p, old) == IF p.set THEN p.v ELSE old
=============================================================================
