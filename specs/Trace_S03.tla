----------------------------- MODULE Trace_S03 -----------------------------
(* A merge of sorted files, some of them without the last columns: what comes out is what a scan   *)
(* of a table with those rows shows, cut into files.                                               *)
EXTENDS TraceLib, Store, SequencesExt
Inputs(e) == FlattenSeq([i \in 1..Len(e.ins) |-> [j \in 1..Len(e.ins[i].rows) |->
               LET r == e.ins[i].rows[j] IN Row(r[1], [c \in 1..Len(e.ins[i].cols) |-> <<e.ins[i].cols[c], r[2][c]>>])]])
T(e) == [NewTable(e.idx, e.rep) EXCEPT !.cols = SetOf(e.cols), !.rows = BagOf(Inputs(e))]
FileOk(f) == /\ Len(f.rows) > 0 /\ f.n = Len(f.rows) /\ f.len
             /\ Leq(f.lo, f.rows[1][1]) /\ Leq(f.rows[Len(f.rows)][1], f.hi)
MergeOk(e) == /\ e.r.e = "ok"
              /\ LET o == e.r.o IN
                 /\ \A i \in 1..Len(o) : FileOk(o[i]) /\ o[i].id = e.from + i - 1
                 /\ e.max = 0 => Len(o) = 1
                 /\ ScanOk(T(e), e.cols, FlattenSeq([i \in 1..Len(o) |-> o[i].rows]))
TSpec == LInit /\ [][More /\ Judge(MergeOk(Trace[l]))]_l
=============================================================================
