-------------------------- MODULE MC_StoredValues ---------------------------
(* A record with two patchable fields under any sequence of patches sent as JSON.                 *)
EXTENDS StoredValues
CONSTANT Depth
VARIABLES name, note, hist, n
vars == <<name, note, hist, n>>
Names == {"\"a\"", "\"b\""}
Docs == {"absent", "null", "\"a\"", "\"b\"", "5"}
Init == name = "\"a\"" /\ note = "null" /\ hist = <<>> /\ n = 0
Patch(d1, d2) ==
  LET p == Decode(d1, Names, FALSE)  q == Decode(d2, Names, TRUE) IN
  /\ n < Depth /\ n' = n + 1
  /\ IF p = Refused \/ q = Refused
     THEN UNCHANGED <<name, note>> /\ hist' = <<"refused", d1, d2, name, note>>
     ELSE name' = Apply(p, name) /\ note' = Apply(q, note) /\ hist' = <<"ok", d1, d2, name, note>>
Next == \E d1, d2 \in Docs : Patch(d1, d2)
Spec == Init /\ [][Next]_vars
(* laws *)
Typed == name \in Names /\ note \in Names \cup {"null"}
Kept == hist # <<>> => /\ (hist[2] = "absent" => name = hist[4]) /\ (hist[3] = "absent" => note = hist[5])
                       /\ (hist[1] = "ok" /\ hist[3] = "null" => note = "null")
                       /\ (hist[1] = "refused" => name = hist[4] /\ note = hist[5])
                       /\ (hist[1] = "ok" /\ hist[2] # "absent" => name = hist[2])
BackAndForth == \A d \in {"absent", "null"} \cup Names : Encode(Decode(d, Names, TRUE)) = d
=============================================================================
