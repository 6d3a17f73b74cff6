--------------------------- MODULE MC_DataTypes -----------------------------
(* A property value moving between the layers: any chain of conversions keeps its type.           *)
EXTENDS DataTypes
VARIABLES orig, layer, typ
vars == <<orig, layer, typ>>
Init == orig \in Types /\ layer = "user" /\ typ = orig
ToEngine == layer = "user" /\ layer' = "engine" /\ typ' = Engine(typ) /\ UNCHANGED orig
FromEngine == layer = "engine" /\ layer' = "user" /\ typ' = Back(Engine0, typ) /\ UNCHANGED orig
ToStore == layer = "user" /\ layer' = "store" /\ typ' = Store(typ) /\ UNCHANGED orig
FromStore == layer = "store" /\ layer' = "user" /\ typ' = Back(Store0, typ) /\ UNCHANGED orig
Next == ToEngine \/ FromEngine \/ ToStore \/ FromStore
Spec == Init /\ [][Next]_vars
Identity == layer = "user" => typ \in Types /\ Elem(typ) = Elem(orig)
Faithful == /\ layer = "engine" => typ = Engine(orig)
            /\ layer = "store" => typ = Store(orig)
DistinctColumns == \A a, b \in Types : Short(a) = Short(b) => a = b
=============================================================================
