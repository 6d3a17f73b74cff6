------------------------------ MODULE Records -------------------------------
(* Looking at records themselves (property Q07): searching events and groups, one record by its id, *)
(* the values a property takes.                                                                     *)
(*                                                                                                 *)
(* record [p, grp, n, e, t, v, s]: project, group (-1: an event), number, event name, instant,      *)
(*        values as filters see them, values as they read ("~" when there is none)                  *)
(* search [p, grp, all, time, evs, glob, keys]: all when no time is asked; evs the events asked     *)
(*        for, each [alts, f]; keys the properties to show                                          *)
EXTENDS Analytics
Most == 100
MostValues == 1000
---------------------------------------------------------------------------
InTime(q, r) == q.all \/ Within(r.t, Window(q.time))
Wanted(evs, r) == evs = <<>> \/ \E i \in 1..Len(evs) : IsEvent(evs[i].alts, r) /\ PassesAll(evs[i].f, r)
Found(D, q) == {i \in DOMAIN D : D[i].p = q.p /\ D[i].grp = q.grp /\ InTime(q, D[i]) /\ Wanted(q.evs, D[i]) /\ PassesAll(q.glob, D[i])}
(* a number that isn't there may read nought *)
Blankable == {"price", "size", "age"}
Reads(k, said, was) == said = was \/ (k \in Blankable /\ was = "~" /\ said = "0")
Shown(keys, r, o) == DOMAIN o = {keys[i] : i \in 1..Len(keys)} /\ \A k \in DOMAIN o : Reads(k, o[k], r.s[k])
Min2(a, b) == IF a < b THEN a ELSE b
(* events come latest first and no more than a hundred of them; groups in any order *)
SearchShows(D, q, rows) ==
  LET S == Found(D, q)
      later(i) == Cardinality({j \in S : D[j].n > D[i].n})
  IN /\ Len(rows) = Min2(Cardinality(S), Most)
     /\ IF q.grp < 0
        THEN \A i \in S : LET at == later(i) + 1 IN at <= Len(rows) => Shown(q.keys, D[i], rows[at])
        ELSE /\ \A k \in 1..Len(rows) : \E i \in S : Shown(q.keys, D[i], rows[k])
             /\ \A i \in S : LET seen == Cardinality({k \in 1..Len(rows) : Shown(q.keys, D[i], rows[k])})
                             IN Cardinality(S) <= Most => seen = Cardinality({j \in S : \A k \in {q.keys[x] : x \in 1..Len(q.keys)} : D[j].s[k] = D[i].s[k] \/ (k \in Blankable /\ {D[j].s[k], D[i].s[k]} = {"~", "0"})})
---------------------------------------------------------------------------
Named(D, q) == {i \in DOMAIN D : D[i].p = q.p /\ D[i].grp = q.grp /\ D[i].s[IF q.grp < 0 THEN "event_id" ELSE "id"] = q.id}
OneShows(D, q, st, out) ==
  LET S == Named(D, q)
  IN IF S = {} THEN st >= 400 ELSE st = 200 /\ \E i \in S : DOMAIN out = DOMAIN D[i].s /\ \A k \in DOMAIN out : out[k] = D[i].s[k]
---------------------------------------------------------------------------
(* the values of a property: each once, in order, the missing one last *)
Taken(D, q) == {D[i].s[q.prop] : i \in {j \in DOMAIN D : D[j].p = q.p /\ D[j].grp = -1 /\ Wanted(q.evs, D[j]) /\ PassesAll(q.f, D[j])}}
ValuesShow(D, q, vals, ranks) ==
  LET V == Taken(D, q)
      last == Len(vals)
      blank == "~" \in V
      nought == blank /\ q.num /\ last > 0 /\ vals[last] = "0"          (* the missing value, read as nought *)
      proper == IF blank THEN last - 1 ELSE last
  IN /\ last = Cardinality(V)
     /\ {vals[i] : i \in 1..proper} = V \ {"~"}
     /\ blank => (vals[last] = "~" \/ nought)
     /\ \A i \in 1..(proper - 1) : ranks[i] < ranks[i + 1]
=============================================================================
