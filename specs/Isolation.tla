------------------------------ MODULE Isolation -----------------------------
(* Projects side by side: what can be seen through a project depends on the calls made in it only. *)
(* `views` maps a project to everything that can be read through it.                               *)
EXTENDS Naturals, Sequences
(* views after a call in project p, given what p shows afterwards *)
After(views, p, shown) == [q \in DOMAIN views |-> IF q = p THEN shown ELSE views[q]]
=============================================================================
