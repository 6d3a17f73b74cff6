------------------------- MODULE MC_ServerSettings --------------------------
(* Settings changed field by field, and backups asked for in between. *)
EXTENDS Settings, TLC
CONSTANTS Steps
VARIABLES s, n, asked
Base == [authAccessToken |-> "k", backupEnabled |-> TRUE, backupEncryptionEnabled |-> FALSE, backupEncryptionPassword |-> "", backupProvider |-> "local",
  backupProviderS3Bucket |-> "", backupProviderS3Region |-> "r", backupProviderS3AccessKey |-> "a", backupProviderS3SecretKey |-> "", backupProviderS3Path |-> "",
  backupProviderGcpBucket |-> "", backupProviderGcpKey |-> "", backupProviderGcpPath |-> "p"]
Values(f) ==
  CASE f \in {"backupEnabled", "backupEncryptionEnabled"} -> BOOLEAN
    [] f = "backupProvider" -> {"local", "s3", "gcp"}
    [] OTHER -> {"", "x"}
Named == {"authAccessToken", "backupEnabled", "backupEncryptionEnabled", "backupEncryptionPassword", "backupProvider", "backupProviderS3Bucket", "backupProviderS3SecretKey", "backupProviderGcpBucket", "backupProviderGcpKey"}
One == UNION {{(f :> v) : v \in Values(f)} : f \in Named}
Requests == One \cup {a @@ b : a, b \in One}
Init == s = [c |-> Base, backups |-> {}] /\ n = 0 /\ asked = <<>>
Change == \E q \in Requests : LET c == Changed(s.c, q) IN asked' = q /\ s' = IF Valid(Cfg(c, "d")) THEN [s EXCEPT !.c = c] ELSE s
Ask == asked' = <<>> /\ s.c.backupEnabled /\ ~Idle(s) /\ s' = [s EXCEPT !.backups = @ \cup {Asked(Cfg(s.c, "d"), n + 1)}]
Finish == asked' = <<>> /\ \E b \in s.backups : b.status[1] = "idle" /\ s' = [s EXCEPT !.backups = {IF x = b THEN [x EXCEPT !.status = <<"done", 0, "">>] ELSE x : x \in @}]
Next == n < Steps /\ n' = n + 1 /\ (Change \/ Ask \/ Finish)
Spec == Init /\ [][Next]_<<s, n, asked>>
Usable == Valid(Cfg(s.c, "d")) /\ OneWaits(s)
Sealed == /\ DOMAIN Shown(s.c) \cap Secrets = {}
  /\ \A b \in s.backups : b.enc => b.pw # ""
(* no field changes that the request did not name, and a request is taken whole or not at all *)
Whole == [][/\ \A f \in DOMAIN s.c : s'.c[f] # s.c[f] => f \in DOMAIN asked'
            /\ (s'.c # s.c => \A f \in DOMAIN asked' : s'.c[f] = asked'[f])]_<<s, n, asked>>
=============================================================================
