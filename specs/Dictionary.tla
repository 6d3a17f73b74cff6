----------------------------- MODULE Dictionary -----------------------------
(* String dictionaries: per column (project, table, dictionary) a set of issued <<text, key>> pairs. *)
EXTENDS Naturals, FiniteSets
Of(d, col) == {x \in d : x[1] = col}
Keys(d, col) == {x[3] : x \in Of(d, col)}
Issued(d, col, text) == {x \in Of(d, col) : x[2] = text}
Encode(d, col, text, key) ==                       \* states after the text was encoded as key
  LET old == Issued(d, col, text) IN
  IF old # {} THEN (IF \E x \in old : x[3] = key THEN {d} ELSE {})
  ELSE IF key \in Keys(d, col) THEN {} ELSE {d \cup {<<col, text, key>>}}
Decode(d, col, key) == {x[2] : x \in {x \in Of(d, col) : x[3] = key}}
IsBijection(d) == \A x, y \in d : x[1] = y[1] => ((x[2] = y[2]) <=> (x[3] = y[3]))
=============================================================================
