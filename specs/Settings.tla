------------------------------ MODULE Settings ------------------------------
(* Server settings and backup records. *)
EXTENDS Naturals, Sequences, FiniteSets
Valid(c) ==
  /\ c.enc => c.encpw # ""
  /\ c.prov = "s3" => c.s3b # "" /\ c.s3r # "" /\ c.s3a # "" /\ c.s3s # ""
  /\ c.prov = "gcp" => c.gb # "" /\ c.gk # ""
Idle(s) == \E b \in s.backups : b.status[1] = "idle"
Prefix(dir) == IF dir = "" THEN "" ELSE dir \o "/"
Dir(c) == CASE c.prov = "local" -> c.local [] c.prov = "s3" -> c.s3p [] OTHER -> c.gp
(* the record of a backup asked for under settings c *)
Asked(c, id) ==
  [id |-> id, prov |-> CASE c.prov = "local" -> <<"local", c.local, "", "">> [] c.prov = "s3" -> <<"s3", c.s3p, c.s3b, c.s3r>> [] OTHER -> <<"gcp", c.gp, c.gb, "">>,
   status |-> <<"idle", 0, "">>, enc |-> c.enc, pw |-> IF c.enc THEN c.encpw ELSE "", path |-> Prefix(Dir(c))]
OneWaits(s) == \A a, b \in s.backups : a.status[1] = "idle" /\ b.status[1] = "idle" => a = b

(* ---- the settings as the API takes and shows them: a record with the API's field names ---- *)
Secrets == {"authAccessToken", "authRefreshToken", "authAdminDefaultPassword", "backupEncryptionPassword", "backupProviderS3SecretKey", "backupProviderGcpKey"}
(* the same settings under the names used above; the local directory is not the API's to set *)
Cfg(c, dir) ==
  [enc |-> c.backupEncryptionEnabled, encpw |-> c.backupEncryptionPassword, prov |-> c.backupProvider, local |-> dir,
   s3b |-> c.backupProviderS3Bucket, s3r |-> c.backupProviderS3Region, s3a |-> c.backupProviderS3AccessKey, s3s |-> c.backupProviderS3SecretKey, s3p |-> c.backupProviderS3Path,
   gb |-> c.backupProviderGcpBucket, gk |-> c.backupProviderGcpKey, gp |-> c.backupProviderGcpPath]
Changed(c, q) == [f \in DOMAIN c |-> IF f \in DOMAIN q THEN q[f] ELSE c[f]]
Shown(c) == [f \in DOMAIN c \ Secrets |-> c[f]]
(* a backup as the API shows it: where to, how far, whether encrypted; never the password *)
BackupShown(b) == [id |-> b.id, prov |-> b.prov, status |-> b.status, enc |-> b.enc]
=============================================================================
