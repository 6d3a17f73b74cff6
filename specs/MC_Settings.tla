----------------------------- MODULE MC_Settings ----------------------------
EXTENDS Settings
CONSTANTS Steps
VARIABLES s, n
Cfgs == [enc : BOOLEAN, encpw : {"", "k"}, prov : {"local", "s3", "gcp"}, local : {"", "d"}, s3b : {"", "b"}, s3r : {"r"}, s3a : {"a"}, s3s : {"", "s"}, s3p : {"p"}, gb : {"b"}, gk : {"", "g"}, gp : {""}]
Init == s = [cfg |-> {}, backups |-> {}] /\ n = 0
Ask == \E c \in s.cfg : ~Idle(s) /\ s' = [s EXCEPT !.backups = @ \cup {Asked(c, n + 1)}]
Report == \E b \in s.backups, st \in {<<"progress", 5, "">>, <<"failed", 0, "x">>, <<"done", 0, "">>} : s' = [s EXCEPT !.backups = {IF x.id = b.id THEN [x EXCEPT !.status = st] ELSE x : x \in @}]
Save == s.cfg = {} /\ \E c \in Cfgs : Valid(c) /\ s' = [s EXCEPT !.cfg = {c}]
Drop == \E b \in s.backups : s' = [s EXCEPT !.backups = @ \ {b}]
Next == n < Steps /\ n' = n + 1 /\ (Ask \/ Report \/ Save \/ Drop)
Spec == Init /\ [][Next]_<<s, n>>
Laws == OneWaits(s) /\ \A b \in s.backups : b.enc => b.pw # ""
Credentials == \A c \in s.cfg : (c.enc => c.encpw # "") /\ (c.prov = "s3" => c.s3s # "" /\ c.s3b # "") /\ (c.prov = "gcp" => c.gk # "")
=============================================================================
