From d74a1b6971741932169c9601081288d9f7cd9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 01/80] fix: keep millisecond times when scalars are stored as
 JSON

---
 src/common/src/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 7b1986c..581602a 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -74,7 +74,7 @@ impl From<ScalarValueRef> for ScalarValue {
             ScalarValueRef::IntervalYearMonth(v) => ScalarValue::IntervalYearMonth(v),
             ScalarValueRef::FixedSizeBinary(a, b) => ScalarValue::FixedSizeBinary(a, b),
             ScalarValueRef::Time32Second(v) => ScalarValue::Time32Second(v),
-            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Second(v),
+            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Millisecond(v),
             ScalarValueRef::Time64Microsecond(v) => ScalarValue::Time64Microsecond(v),
             ScalarValueRef::Time64Nanosecond(v) => ScalarValue::Time64Nanosecond(v),
             _ => unimplemented!(),
@@ -111,7 +111,7 @@ impl From<&ScalarValue> for ScalarValueRef {
             ScalarValue::IntervalYearMonth(v) => ScalarValueRef::IntervalYearMonth(v),
             ScalarValue::FixedSizeBinary(a, b) => ScalarValueRef::FixedSizeBinary(a, b),
             ScalarValue::Time32Second(v) => ScalarValueRef::Time32Second(v),
-            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Second(v),
+            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Millisecond(v),
             ScalarValue::Time64Microsecond(v) => ScalarValueRef::Time64Microsecond(v),
             ScalarValue::Time64Nanosecond(v) => ScalarValueRef::Time64Nanosecond(v),
             _ => unimplemented!(),
-- 
2.43.0


From 6c7b760baca6e86d9a830a508722ee69f2d11b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 02/80] fix: refuse to store non-finite numbers instead of
 turning them into null

---
 src/common/src/scalar.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 581602a..5d5fe05 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -122,6 +122,15 @@ impl From<&ScalarValue> for ScalarValueRef {
 impl SerializeAs<ScalarValue> for ScalarValueRef {
     fn serialize_as<S>(value: &ScalarValue, serializer: S) -> Result<S::Ok, S::Error>
     where S: Serializer {
+        // JSON has no NaN or infinity and would silently turn them into null
+        let finite = match value {
+            ScalarValue::Float32(Some(v)) => v.is_finite(),
+            ScalarValue::Float64(Some(v)) => v.is_finite(),
+            _ => true,
+        };
+        if !finite {
+            return Err(serde::ser::Error::custom("non-finite number"));
+        }
         ScalarValueRef::serialize(&ScalarValueRef::from(value), serializer)
     }
 }
-- 
2.43.0


From 92b23d3045de7ea38f1027f1aeef5a008f4b9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 03/80] fix: metadata sequences and existence checks lock the
 keys they read

Two concurrent transactions could read the same sequence value or both find a
name, dictionary value, group key or session absent, and then both write.
---
 src/metadata/src/dictionaries.rs |  9 ++++-----
 src/metadata/src/groups.rs       | 10 +++++-----
 src/metadata/src/index.rs        |  8 ++++----
 src/metadata/src/properties.rs   |  2 +-
 src/metadata/src/sessions.rs     |  2 +-
 5 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index f78749e..e8ca423 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -66,11 +66,10 @@ impl Dictionaries {
         dict: &str,
         value: &str,
     ) -> Result<u64> {
-        let res = match tx.get(make_value_key(
-            project_id,
-            tbl_dict(table, dict).as_str(),
-            value,
-        ))? {
+        let res = match tx.get_for_update(
+            make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
+            true,
+        )? {
             None => {
                 let key = make_id_seq_key(
                     project_ns(
diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index e4da52a..0d49ca4 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -36,7 +36,7 @@ impl Groups {
         anon_key: &str,
     ) -> Result<u64> {
         let key = format!("projects/{project_id}/groups/{group_id}/anonymous/keys/{anon_key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -77,7 +77,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let user_key = format!("projects/{project_id}/groups/{group_id}/real/keys/{id}");
-        let res = match tx.get(user_key.as_bytes())? {
+        let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
                     self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
@@ -109,7 +109,7 @@ impl Groups {
         values: Vec<PropertyValue>,
     ) -> Result<GroupValues> {
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -148,7 +148,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -216,7 +216,7 @@ impl Groups {
     ) -> Result<Group> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/names/{name}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let id = next_zero_seq(
                     &tx,
diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index 53b7b1c..d8a636a 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -9,7 +9,7 @@ pub fn check_insert_constraints(
     keys: &[Option<Vec<u8>>],
 ) -> Result<()> {
     for key in keys.iter().flatten() {
-        if tx.get(key)?.is_some() {
+        if tx.get_for_update(key, true)?.is_some() {
             return Err(MetadataError::AlreadyExists(String::from_utf8(
                 key.to_owned(),
             )?));
@@ -36,7 +36,7 @@ pub fn check_update_constraints(
 ) -> Result<()> {
     for (key, prev_key) in keys.iter().zip(prev_keys) {
         if let Some(key_v) = key {
-            if key != prev_key && (tx.get(key_v)?).is_some() {
+            if key != prev_key && (tx.get_for_update(key_v, true)?).is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key_v.to_owned(),
                 )?));
@@ -90,7 +90,7 @@ where
 }
 
 pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 1,
@@ -101,7 +101,7 @@ pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Resu
 }
 
 pub fn next_zero_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 0,
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index e8e1917..8381f66 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -225,7 +225,7 @@ impl Properties {
         let mut idx_keys = index_keys(project_id, &self.typ, &req.name, req.display_name.clone());
 
         for key in idx_keys.iter().flatten() {
-            if tx.get(key)?.is_some() {
+            if tx.get_for_update(key, true)?.is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key.to_owned(),
                 )?));
diff --git a/src/metadata/src/sessions.rs b/src/metadata/src/sessions.rs
index a04bd52..3d1b16a 100644
--- a/src/metadata/src/sessions.rs
+++ b/src/metadata/src/sessions.rs
@@ -81,7 +81,7 @@ impl Sessions {
         let tx = self.db.transaction();
         let key = make_data_key(project_id, user_id);
         let mut is_new = false;
-        let mut session = match tx.get(key)? {
+        let mut session = match tx.get_for_update(key, true)? {
             None => {
                 is_new = true;
                 Session {
-- 
2.43.0


From 3ea5f2a1ae36faeaab57af5365e6df500c754540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 04/80] fix: merging an anonymous visitor leaves the group id
 sequence alone

The sequence was overwritten with the visitor's id in decimal text, so the
next id could not be read back and earlier ids could be issued again.
---
 src/metadata/src/groups.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index 0d49ca4..0a69e7a 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -80,11 +80,7 @@ impl Groups {
         let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
-                    self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
-                let group_key = format!("groups/{group_id}");
-                let seq_key =
-                    make_id_seq_key(project_ns(project_id, group_key.as_bytes()).as_slice());
-                tx.put(seq_key, anonymous_id.to_string().as_bytes())?;
+                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                 let group = GroupValues {
                     id: anonymous_id,
                     values,
-- 
2.43.0


From 22b6d1e3f70ae3607c2521a3a875a2d21f9667a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 05/80] fix: a failed event or custom event creation stores
 nothing

---
 src/metadata/src/custom_events.rs | 2 +-
 src/metadata/src/events.rs        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0aaac3d..8a897d5 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -160,7 +160,7 @@ impl CustomEvents {
             events: req.events,
         };
         let data = serialize(&event)?;
-        self.db.put(
+        tx.put(
             make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event.id),
             data,
         )?;
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index c858bd8..722300e 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -209,9 +209,9 @@ impl Events {
 
     pub fn create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
@@ -222,9 +222,9 @@ impl Events {
             other => return other,
         }
 
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_by_id(&self, project_id: u64, id: u64) -> Result<Event> {
-- 
2.43.0


From af93fd02b4c2014adb8655f3eef22a05eaea76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 06/80] fix: detaching a property that is not attached reports
 not found

---
 src/metadata/src/events.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 722300e..5544a71 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -98,8 +98,8 @@ macro_rules! detach_property {
             }
             Some(props) => match props.iter().find(|x| $prop_id == **x) {
                 None => {
-                    return Err(MetadataError::AlreadyExists(
-                        "property already exist".to_string(),
+                    return Err(MetadataError::NotFound(
+                        format!("property {} not found", $prop_id).to_string(),
                     ));
                 }
                 Some(_) => Some(props.into_iter().filter(|x| $prop_id != *x).collect()),
-- 
2.43.0


From 1be158aa630a2c41fb749545349e5ea90111dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 07/80] fix: cache properties only once they are committed

---
 src/metadata/src/properties.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index 8381f66..b0af46d 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -276,16 +276,6 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
@@ -347,10 +337,23 @@ impl Properties {
         };
     }
 
+    // remembers a committed property
+    fn cache(&self, prop: &Property) {
+        self.name_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.name.to_string()), prop.clone());
+        self.id_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.id), prop.clone());
+    }
+
     pub fn create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
+        self.cache(&ret);
 
         Ok(ret)
     }
@@ -365,6 +368,7 @@ impl Properties {
         let ret = self.create_(&tx, project_id, req)?;
 
         tx.commit()?;
+        self.cache(&ret);
 
         Ok(ret)
     }
@@ -498,20 +502,12 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
         update_index(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref(), property_id)?;
         tx.commit()?;
+        self.cache(&prop);
         Ok(prop)
     }
 
-- 
2.43.0


From 7b36c23a120f5bf715bbe0320662eaccc1b3ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 08/80] fix: the backup start hour is stored as given

---
 src/metadata/src/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index b97d03b..2ebc261 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -183,7 +183,7 @@ fn serialize(v: &Settings) -> Result<Vec<u8>> {
             BackupScheduleInterval::Monthly => pbconfig::BackupScheduleInterval::Monthly as i32,
             BackupScheduleInterval::Yearly => pbconfig::BackupScheduleInterval::Yearly as i32,
         },
-        backup_schedule_start_hour: 0,
+        backup_schedule_start_hour: v.backup_schedule_start_hour as u32,
     };
 
     Ok(backup.encode_to_vec())
-- 
2.43.0


From c59a5cf21f8e67e572ade65e1a1c074296cafe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 09/80] fix: updating an account applies the requested role

---
 src/metadata/src/accounts.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 03b2835..707c462 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -145,6 +145,9 @@ impl Accounts {
         if let OptionalProperty::Some(force_update_password) = req.force_update_password {
             account.force_update_password = force_update_password;
         }
+        if let OptionalProperty::Some(role) = req.role {
+            account.role = role;
+        }
         if let OptionalProperty::Some(organizations) = req.organizations {
             account.organizations = organizations;
         }
-- 
2.43.0


From 39c65dbba4909144cbf42a883842e6f7d2073693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 10/80] fix: a project is not found by its name where its token
 is asked for

---
 src/metadata/src/projects.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index 99fc5ed..ac4603d 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -105,7 +105,14 @@ impl Projects {
             index_token_key(token).unwrap(),
             "project can't be found by token",
         )?;
-        self.get_by_id_(&tx, id)
+        // names and tokens share one index
+        let project = self.get_by_id_(&tx, id)?;
+        if project.token != token {
+            return Err(MetadataError::NotFound(
+                "project can't be found by token".to_string(),
+            ));
+        }
+        Ok(project)
     }
 
     pub fn list(&self) -> Result<ListResponse<Project>> {
-- 
2.43.0


From a92fdbbe462083ed0c4f18e90bf7aee783d6e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 11/80] fix: listing teams returns all of them

---
 src/metadata/src/teams.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 98d8d4a..b58cde2 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -118,10 +118,9 @@ impl Teams {
             let (key, value) = kv?;
             // check if key contains the prefix
             if key.len() < prefix.len() || !prefix.as_slice().cmp(&key[..prefix.len()]).is_eq() {
-                continue;
+                break;
             }
             list.push(deserialize(&value)?);
-            break;
         }
 
         Ok(ListResponse {
-- 
2.43.0


From 90696599e5f2560834e4809b6b0c05517a800018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 12/80] fix: deleting an account or an organization removes the
 membership on the other side

---
 src/metadata/src/accounts.rs      |  4 ++++
 src/metadata/src/organizations.rs | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 707c462..dc02ffd 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -29,6 +29,7 @@ use crate::make_id_seq_key;
 use crate::make_index_key;
 use crate::metadata::ListResponse;
 use crate::metadata::ResponseMetadata;
+use crate::organizations::Organizations;
 use crate::Result;
 
 const NAMESPACE: &[u8] = b"accounts";
@@ -172,6 +173,9 @@ impl Accounts {
     pub fn delete(&self, id: u64) -> Result<Account> {
         let tx = self.db.transaction();
         let account = self.get_by_id_(&tx, id)?;
+        for (org_id, _) in account.organizations.iter().flatten() {
+            Organizations::forget_member_(&tx, *org_id, id)?;
+        }
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
         delete_index(&tx, index_keys(&account.email).as_ref())?;
diff --git a/src/metadata/src/organizations.rs b/src/metadata/src/organizations.rs
index 9ae7758..4c8bd2c 100644
--- a/src/metadata/src/organizations.rs
+++ b/src/metadata/src/organizations.rs
@@ -192,6 +192,21 @@ impl Organizations {
         Ok(())
     }
 
+    // drops a deleted account from the organization's members
+    pub(crate) fn forget_member_(
+        tx: &Transaction<TransactionDB>,
+        id: u64,
+        member_id: u64,
+    ) -> Result<()> {
+        let key = make_data_value_key(NAMESPACE, id);
+        if let Some(value) = tx.get_for_update(&key, true)? {
+            let mut org = deserialize(&value)?;
+            org.members.retain(|(id, _)| *id != member_id);
+            tx.put(key, serialize(&org)?)?;
+        }
+        Ok(())
+    }
+
     pub fn change_member_role(
         &self,
         id: u64,
@@ -220,6 +235,9 @@ impl Organizations {
         let tx = self.db.transaction();
 
         let org = self.get_by_id_(&tx, id)?;
+        for (member_id, _) in &org.members {
+            self.accs.remove_organization_(&tx, *member_id, id)?;
+        }
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
         delete_index(&tx, index_keys(&org.name).as_ref())?;
-- 
2.43.0


From 1dac8b8aa0cba59a61444f7a77df03eea64a3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 13/80] fix: metadata updates lock the object they read, change
 and write back

---
 src/metadata/src/accounts.rs      |  6 ++++++
 src/metadata/src/backups.rs       |  4 ++++
 src/metadata/src/custom_events.rs | 11 +++++++++++
 src/metadata/src/dashboards.rs    |  9 +++++++++
 src/metadata/src/events.rs        | 22 ++++++++++++++++++++++
 src/metadata/src/index.rs         |  6 ++++++
 src/metadata/src/organizations.rs | 11 ++++++++++-
 src/metadata/src/projects.rs      |  4 ++++
 src/metadata/src/properties.rs    | 19 +++++++++++++++++++
 src/metadata/src/reports.rs       |  9 +++++++++
 src/metadata/src/sessions.rs      | 10 +++++++---
 src/metadata/src/teams.rs         |  9 +++++++++
 12 files changed, 116 insertions(+), 4 deletions(-)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index dc02ffd..d4f693d 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -121,6 +122,7 @@ impl Accounts {
 
     pub fn update(&self, account_id: u64, req: UpdateAccountRequest) -> Result<Account> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, account_id))?;
 
         let prev_account = self.get_by_id_(&tx, account_id)?;
         let mut account = prev_account.clone();
@@ -172,6 +174,7 @@ impl Accounts {
 
     pub fn delete(&self, id: u64) -> Result<Account> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let account = self.get_by_id_(&tx, id)?;
         for (org_id, _) in account.organizations.iter().flatten() {
             Organizations::forget_member_(&tx, *org_id, id)?;
@@ -190,6 +193,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock_key(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().any(|(id, _)| *id == org_id) {
@@ -210,6 +214,7 @@ impl Accounts {
         member_id: u64,
         org_id: u64,
     ) -> Result<()> {
+        lock_key(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().all(|(id, _)| *id != org_id) {
@@ -231,6 +236,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock_key(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         for (id, r) in orgs.iter_mut() {
diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 1fe5bd1..b628516 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::backup;
 use crate::error::MetadataError;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -111,6 +112,7 @@ impl Backups {
 
     pub fn create(&self, req: CreateBackupRequest) -> Result<Backup> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_id_seq_key(NAMESPACE))?;
         if req.status == Status::Idle {
             let list = self.list_(&tx)?;
             for backup in list.data {
@@ -176,6 +178,7 @@ impl Backups {
 
     pub fn update_status(&self, backup_id: u64, status: Status) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, backup_id))?;
 
         let mut backup = self.get_by_id_(&tx, backup_id)?;
         backup.status = status;
@@ -189,6 +192,7 @@ impl Backups {
 
     pub fn delete(&self, id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let _ = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 8a897d5..85544a9 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -26,6 +26,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -218,6 +219,10 @@ impl CustomEvents {
         req: UpdateCustomEventRequest,
     ) -> Result<CustomEvent> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id),
+        )?;
 
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
@@ -252,6 +257,8 @@ impl CustomEvents {
                 return Err(MetadataError::BadRequest("empty events".to_string()));
             }
 
+            // one definition changes at a time, so that two changes can't close a cycle
+            lock_key(&tx, project_ns(project_id, b"custom_events/definitions"))?;
             let mut ids = vec![event.id];
             self.validate_events(project_id, &events, 0, &mut ids)?;
 
@@ -271,6 +278,10 @@ impl CustomEvents {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<CustomEvent> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+        )?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/dashboards.rs b/src/metadata/src/dashboards.rs
index 4525103..ae7bd44 100644
--- a/src/metadata/src/dashboards.rs
+++ b/src/metadata/src/dashboards.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::dashboard;
 use crate::error::MetadataError;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -117,6 +118,10 @@ impl Dashboards {
         req: UpdateDashboardRequest,
     ) -> Result<Dashboard> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), dashboard_id),
+        )?;
 
         let prev_dashboard = self.get_by_id_(&tx, project_id, dashboard_id)?;
         let mut dashboard = prev_dashboard.clone();
@@ -147,6 +152,10 @@ impl Dashboards {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Dashboard> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+        )?;
         let dashboard = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 5544a71..3ed78cd 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -63,6 +64,10 @@ fn index_display_name_key(project_id: u64, display_name: Option<String>) -> Opti
 macro_rules! attach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id),
+        )?;
 
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
@@ -89,6 +94,10 @@ macro_rules! attach_property {
 macro_rules! detach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id),
+        )?;
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => {
@@ -216,6 +225,7 @@ impl Events {
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
+        lock_key(&tx, index_name_key(project_id, &req.name).unwrap())?;
         match self.get_by_name_(&tx, project_id, req.name.as_str()) {
             Ok(event) => return Ok(event),
             Err(MetadataError::NotFound(_)) => {}
@@ -264,6 +274,10 @@ impl Events {
 
     pub fn update(&self, project_id: u64, event_id: u64, req: UpdateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id),
+        )?;
 
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
@@ -323,6 +337,10 @@ impl Events {
         event_props: Vec<u64>,
     ) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id),
+        )?;
 
         let mut event = self.get_by_id_(&tx, project_id, event_id)?;
         for prop in event_props {
@@ -385,6 +403,10 @@ impl Events {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Event> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+        )?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index d8a636a..76fad64 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -4,6 +4,12 @@ use rocksdb::TransactionDB;
 use crate::error::MetadataError;
 use crate::Result;
 
+// keeps an object from being changed by another transaction until this one ends
+pub fn lock_key(tx: &Transaction<TransactionDB>, key: Vec<u8>) -> Result<()> {
+    tx.get_for_update(key, true)?;
+    Ok(())
+}
+
 pub fn check_insert_constraints(
     tx: &Transaction<TransactionDB>,
     keys: &[Option<Vec<u8>>],
diff --git a/src/metadata/src/organizations.rs b/src/metadata/src/organizations.rs
index 4c8bd2c..7e65462 100644
--- a/src/metadata/src/organizations.rs
+++ b/src/metadata/src/organizations.rs
@@ -18,6 +18,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -153,6 +154,7 @@ impl Organizations {
 
     pub fn update(&self, id: u64, req: UpdateOrganizationRequest) -> Result<Organization> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let org = self.update_(&tx, id, req)?;
         tx.commit()?;
         Ok(org)
@@ -160,6 +162,7 @@ impl Organizations {
 
     pub fn add_member(&self, id: u64, member_id: u64, role: OrganizationRole) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::AlreadyExists(
@@ -177,6 +180,7 @@ impl Organizations {
 
     pub fn remove_member(&self, id: u64, member_id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if !org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::NotFound(
@@ -214,6 +218,7 @@ impl Organizations {
         role: OrganizationRole,
     ) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if let Some(member) = org.members.iter_mut().find(|(id, _)| *id == member_id) {
             member.1 = role.clone();
@@ -233,10 +238,14 @@ impl Organizations {
 
     pub fn delete(&self, id: u64) -> Result<Organization> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
 
         let org = self.get_by_id_(&tx, id)?;
         for (member_id, _) in &org.members {
-            self.accs.remove_organization_(&tx, *member_id, id)?;
+            match self.accs.remove_organization_(&tx, *member_id, id) {
+                Ok(()) | Err(MetadataError::NotFound(_)) => {}
+                Err(err) => return Err(err),
+            }
         }
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index ac4603d..af238eb 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -18,6 +18,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -141,6 +142,7 @@ impl Projects {
 
     pub fn update(&self, project_id: u64, req: UpdateProjectRequest) -> Result<Project> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, project_id))?;
 
         let prev_project = self.get_by_id_(&tx, project_id)?;
         let mut project = prev_project.clone();
@@ -182,6 +184,7 @@ impl Projects {
 
     pub fn increment_events_counter(&self, project_id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, project_id))?;
 
         let mut project = self.get_by_id_(&tx, project_id)?;
         project.events_count += 1;
@@ -193,6 +196,7 @@ impl Projects {
     }
     pub fn delete(&self, project_id: u64) -> Result<Project> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, project_id))?;
 
         let project = self.get_by_id_(&tx, project_id)?;
         tx.delete(make_data_value_key(NAMESPACE, project_id))?;
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index b0af46d..665d5cc 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -30,6 +30,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::next_zero_seq;
 use crate::index::update_index;
@@ -360,6 +361,10 @@ impl Properties {
 
     pub fn get_or_create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            index_name_key(project_id, &self.typ, &req.name).unwrap(),
+        )?;
         match self.get_by_name_(&tx, project_id, req.name.as_str()) {
             Ok(event) => return Ok(event),
             Err(MetadataError::NotFound(_)) => {}
@@ -427,6 +432,13 @@ impl Properties {
         req: UpdatePropertyRequest,
     ) -> Result<Property> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(
+                project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
+                property_id,
+            ),
+        )?;
 
         let prev_prop = self.get_by_id(project_id, property_id)?;
         let mut prop = prev_prop.clone();
@@ -513,6 +525,13 @@ impl Properties {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Property> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(
+                project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
+                id,
+            ),
+        )?;
         let prop = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index c86d381..7e9d3ba 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -16,6 +16,7 @@ use serde::Deserialize;
 use serde::Serialize;
 
 use crate::error::MetadataError;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -123,6 +124,10 @@ impl Reports {
         req: UpdateReportRequest,
     ) -> Result<Report> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), report_id),
+        )?;
         let prev_report = self.get_by_id_(&tx, project_id, report_id)?;
         let mut report = prev_report.clone();
 
@@ -152,6 +157,10 @@ impl Reports {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Report> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+        )?;
         let report = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/sessions.rs b/src/metadata/src/sessions.rs
index 3d1b16a..634923b 100644
--- a/src/metadata/src/sessions.rs
+++ b/src/metadata/src/sessions.rs
@@ -110,7 +110,7 @@ impl Sessions {
 
         let prefix = format!("projects/{project_id}/sessions/data");
         let iter = tx.prefix_iterator(prefix.clone());
-        let mut list = vec![];
+        let mut list: Vec<Session> = vec![];
         for kv in iter {
             let (key, value) = kv?;
             // check if key contains the prefix
@@ -122,8 +122,12 @@ impl Sessions {
 
         let tx = self.db.transaction();
         for s in list.into_iter() {
-            if callback(&s)? {
-                tx.delete(make_data_key(project_id, s.user_id).as_slice())?;
+            let key = make_data_key(project_id, s.user_id);
+            // it may have been ended or become active again meanwhile
+            if let Some(value) = tx.get_for_update(&key, true)? {
+                if callback(&deserialize(&value)?)? {
+                    tx.delete(&key)?;
+                }
             }
         }
         tx.commit()?;
diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index b58cde2..2971c58 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -14,6 +14,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -136,6 +137,10 @@ impl Teams {
         req: UpdateTeamRequest,
     ) -> Result<Team> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id),
+        )?;
 
         let prev_team = self.get_by_id_(&tx, organization_id, team_id)?;
         let mut team = prev_team.clone();
@@ -166,6 +171,10 @@ impl Teams {
 
     pub fn delete(&self, organization_id: u64, team_id: u64) -> Result<Team> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id),
+        )?;
 
         let team = self.get_by_id_(&tx, organization_id, team_id)?;
         tx.delete(make_data_value_key(
-- 
2.43.0


From 9dcbc8a203c91a5117683fedc993f4e58983eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 14/80] fix: properties attached to an event are stored with it

---
 src/metadata/src/events.rs      | 13 ++++++++++---
 src/metadata/src/pb/event.proto |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 3ed78cd..f326e25 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -511,6 +511,9 @@ fn serialize(v: &Event) -> Result<Vec<u8>> {
             Status::Disabled => 2,
         },
         is_system: v.is_system,
+        event_properties: v.event_properties.clone().unwrap_or_default(),
+        user_properties: v.user_properties.clone().unwrap_or_default(),
+        custom_properties: v.custom_properties.clone().unwrap_or_default(),
     };
 
     Ok(d.encode_to_vec())
@@ -542,12 +545,16 @@ fn deserialize(data: &[u8]) -> Result<Event> {
             _ => unreachable!(),
         },
         is_system: from.is_system,
-        event_properties: None,
-        user_properties: None,
-        custom_properties: None,
+        event_properties: some_ids(from.event_properties),
+        user_properties: some_ids(from.user_properties),
+        custom_properties: some_ids(from.custom_properties),
     })
 }
 
+fn some_ids(ids: Vec<u64>) -> Option<Vec<u64>> {
+    if ids.is_empty() { None } else { Some(ids) }
+}
+
 #[cfg(test)]
 mod tests {
     use chrono::DateTime;
diff --git a/src/metadata/src/pb/event.proto b/src/metadata/src/pb/event.proto
index 1ac389e..feddf0c 100644
--- a/src/metadata/src/pb/event.proto
+++ b/src/metadata/src/pb/event.proto
@@ -14,6 +14,9 @@ message Event {
   optional string description = 10;
   Status status = 11;
   bool is_system = 12;
+  repeated uint64 event_properties = 13;
+  repeated uint64 user_properties = 14;
+  repeated uint64 custom_properties = 15;
 }
 
 enum Status {
-- 
2.43.0


From 2d14fa2a87041aeaed8f83230f3a13e1da7797ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 15/80] fix: scan from one view of memory and parts

---
 src/storage/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7ad6214..e84b610 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -626,9 +626,9 @@ impl OptiDBImpl {
         };
 
         drop(tables);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        // both locks are held until every part is opened, otherwise a flush or a compaction in
+        // between would show some rows twice or not at all
+        let metadata = tbl.metadata.lock();
 
         let start_time = Instant::now();
         let memtable = tbl.memtable.lock();
-- 
2.43.0


From f9b268e0c78d3b38741732d89090691ab700a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 16/80] fix: log and store an inserted row under one lock

---
 src/storage/src/db.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index e84b610..759c19e 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -699,8 +699,13 @@ impl OptiDBImpl {
     }
 
     // #[instrument(level = "trace", skip(self))]
-    pub fn insert(&self, tbl_name: &str, mut values: Vec<NamedValue>) -> Result<()> {
+    pub fn insert(&self, tbl_name: &str, values: Vec<NamedValue>) -> Result<()> {
         let _g = self.global_lock.read();
+        self.insert_row(tbl_name, values)
+    }
+
+    // the global lock has to be held by the caller
+    fn insert_row(&self, tbl_name: &str, mut values: Vec<NamedValue>) -> Result<()> {
         let start_time = Instant::now();
         let tables = self.tables.read();
         let tbl = tables.iter().find(|t| t.name == tbl_name);
@@ -709,9 +714,9 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        // held until the row is in memory: a field added or a flush done in between would leave the
+        // row without its place in the log or in the schema
+        let mut metadata = tbl.metadata.lock();
         for v in values.iter() {
             match metadata.schema.fields.iter().find(|f| f.name == v.name) {
                 None => {
@@ -769,7 +774,6 @@ impl OptiDBImpl {
             log.get_mut(),
         )?;
         drop(log);
-        let mut metadata = tbl.metadata.lock();
         metadata.stats.logged_bytes += logged as u64;
         let mut memtable = tbl.memtable.lock();
         for (idx, val) in pk_values.iter().enumerate() {
@@ -858,7 +862,7 @@ impl OptiDBImpl {
             unreachable!();
         }
 
-        self.insert(tbl_name, values)
+        self.insert_row(tbl_name, values)
     }
 
     pub fn get(&self, tbl_name: &str, key: Vec<KeyValue>) -> Result<Option<Vec<Value>>> {
-- 
2.43.0


From 2863d59429d4930becb501a06fb4bc5744a0ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 17/80] fix: recover rows logged before a field was added

---
 src/storage/src/db.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 759c19e..02ef2be 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -269,8 +269,14 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
         LogOp::Insert(k, v) => {
             let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
             let vv = [kv, v].concat();
+            let mut pushed = 0;
             for (idx, val) in vv.into_iter().enumerate() {
                 memtable.push_value(idx, val);
+                pushed = idx + 1;
+            }
+            // the row was logged before these fields were added
+            for idx in pushed..memtable.cols_len() {
+                memtable.push_value(idx, Value::Null);
             }
         }
     }
-- 
2.43.0


From 1ff8ca0fe5eb7a2fd758a15982c5b31dd93a6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 18/80] fix: reopen a store that went down while flushing or
 logging

---
 src/storage/src/db.rs | 70 ++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 02ef2be..6d09d50 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,5 +1,3 @@
-use std::collections::BinaryHeap;
-use std::ffi::OsStr;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -327,51 +325,44 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     }
 
     let mut md = deserialize_md(&data_b)?;
-    let dir = fs::read_dir(path.clone())?;
-    let mut logs = BinaryHeap::new();
-
-    for f in dir {
-        let f = f?;
-        match f.path().extension() {
-            None => {}
-            Some(n) => {
-                if n == OsStr::new("log") {
-                    logs.push(f.path());
-                }
-            }
-        };
-    }
-
-    if logs.is_empty() {
-        return Err(StoreError::Internal("no logs found".to_string()));
-    }
-
-    // !@#trace!("found {} logs", logs.len());
-
-    let log_path = logs.pop().unwrap();
+    // the rows of older logs are in parts. The log itself is missing if the store went down between
+    // writing the metadata and creating the log
+    let log_path = path.join(log_name(md.log_id));
     // todo make a buffered read. Currently something odd happens with reading the length of the record
-    let mut log = OpenOptions::new().read(true).write(true).open(&log_path)?;
+    let mut log = OpenOptions::new()
+        .read(true)
+        .write(true)
+        .create(true)
+        .truncate(false)
+        .open(&log_path)?;
+    let log_len = log.metadata()?.len();
+    let mut log_pos = 0;
 
     let mut memtable = Memtable::new();
 
     for f in &md.schema.fields {
         memtable.add_column(f.data_type.clone().try_into()?);
     }
-    loop {
-        let mut crc_b = [0u8; mem::size_of::<u32>()];
-        let read_bytes = log.read(&mut crc_b)?;
-        if read_bytes == 0 {
+    let header_len = (mem::size_of::<u32>() + mem::size_of::<u64>()) as u64;
+    while log_pos < log_len {
+        // the last record is incomplete if the store went down while writing it
+        if log_len - log_pos < header_len {
             break;
         }
+        let mut crc_b = [0u8; mem::size_of::<u32>()];
+        log.read_exact(&mut crc_b)?;
         let crc32 = u32::from_le_bytes(crc_b);
         // !@#trace!("crc32: {}", crc32);
 
         let mut len_b = [0u8; mem::size_of::<u64>()];
-        _ = log.read(&mut len_b)?;
+        log.read_exact(&mut len_b)?;
         let len = u64::from_le_bytes(len_b);
         // !@#trace!("len: {}", len);
+        if log_len - log_pos - header_len < len {
+            break;
+        }
         let mut data_b = vec![0u8; len as usize];
-        _ = log.read(&mut data_b)?;
+        log.read_exact(&mut data_b)?;
         // todo recover from this case
         let cur_crc32 = hash_crc32(&data_b);
         if crc32 != cur_crc32 {
@@ -383,10 +374,15 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         let op = deserialize::<LogOp>(&data_b)?;
 
         recover_op(op, &mut memtable)?;
+        log_pos += header_len + len;
+    }
+    if log_pos < log_len {
+        log.set_len(log_pos)?;
+        log.seek(io::SeekFrom::Start(log_pos))?;
     }
     // !@#trace!("operations recovered: {}", ops);
 
-    md.stats.logged_bytes = log_path.metadata().unwrap().len();
+    md.stats.logged_bytes = log_pos;
 
     let log = BufWriter::new(log);
     // if trigger_compact {
@@ -481,7 +477,12 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
         metadata.levels[0].part_id,
     );
     // !@#trace!("creating part file {:?}", p);
-    let w = OpenOptions::new().create_new(true).write(true).open(path)?;
+    // a file left by a flush that was not completed is written over
+    let w = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .open(path)?;
     let mut writer =
         parquet::write::FileWriter::try_new(BufWriter::new(w), metadata.schema.clone(), popts)?;
     // Write the part
@@ -553,7 +554,8 @@ fn flush_log_(
     );
     fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))?;
     let log = OpenOptions::new()
-        .create_new(true)
+        .create(true)
+        .truncate(true)
         .write(true)
         .read(true)
         .open(log_path(path, &metadata.table_name, metadata.log_id))?;
-- 
2.43.0


From 44c88852d6d8a9db54e29d9ef30eb474049999bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 19/80] fix: replace the metadata file as a whole

---
 src/storage/src/compaction.rs |  5 ++--
 src/storage/src/db.rs         | 50 +++++++++++++++--------------------
 src/storage/src/table.rs      |  1 -
 3 files changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index ff012df..767323e 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -23,6 +23,7 @@ use metrics::counter;
 use metrics::histogram;
 use parking_lot::RwLock;
 
+use crate::db::metadata_path;
 use crate::db::part_path;
 use crate::db::write_metadata;
 use crate::error::Result;
@@ -153,8 +154,8 @@ impl Compactor {
                             for (idx, l) in res.levels.iter().enumerate().skip(1) {
                                 metadata.levels[idx] = l.clone();
                             }
-                            let mut manifest = table.metadata_f.lock();
-                            write_metadata(manifest.get_mut(), &mut metadata).unwrap();
+                            write_metadata(&metadata_path(&self.path, &table.name), &metadata)
+                                .unwrap();
                             drop(metadata);
                             // drop because next fs operation is with locking
                             for op in res.fs_ops {
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 6d09d50..0323619 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -282,7 +282,13 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     Ok(())
 }
 
-pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Result<usize> {
+pub(crate) fn metadata_path(path: &Path, tbl_name: &str) -> PathBuf {
+    path.join(format!("tables/{}/metadata", tbl_name))
+}
+
+// metadata is written aside and then takes the place of the previous one, so that there is a whole
+// one at any moment
+pub(crate) fn write_metadata(path: &Path, metadata: &Metadata) -> Result<usize> {
     let data = serialize_md(metadata)?;
     let mut a = Vec::with_capacity(1024 * 10);
     let crc = hash_crc32(&data);
@@ -291,8 +297,9 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
     let vv = (data.len() as u64).to_le_bytes();
     a.push(vv.as_slice());
     a.push(&data);
-    manifest.rewind()?;
-    manifest.write_all(a.concat().as_slice())?;
+    let tmp_path = path.with_extension("tmp");
+    fs::write(&tmp_path, a.concat().as_slice())?;
+    fs::rename(&tmp_path, path)?;
     let logged_size = 8 + 4 + data.len();
     // !@#trace!("logged size: {}", logged_size);
     // log.flush()?;
@@ -301,10 +308,7 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
 
 fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     let start_time = Instant::now();
-    let mut mdf = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .open(path.join("metadata"))?;
+    let mut mdf = File::open(path.join("metadata"))?;
     let mut crc_b = [0u8; mem::size_of::<u32>()];
     let read_bytes = mdf.read(&mut crc_b)?;
     if read_bytes == 0 {
@@ -393,7 +397,6 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         name,
         memtable: Arc::new(Mutex::new(memtable)),
         metadata: Arc::new(Mutex::new(md)),
-        metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
         log: Arc::new(Mutex::new(log)),
         cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
     })
@@ -407,6 +410,10 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let dir = fs::read_dir(path.join("tables"))?;
     for f in dir {
         let f = f?;
+        // the store went down before the table was created
+        if !f.path().join("metadata").exists() {
+            continue;
+        }
         tables.push(try_recover_table(
             f.path(),
             f.file_name().to_os_string().into_string().unwrap(),
@@ -541,12 +548,7 @@ fn flush_log_(
     // create new log
     trace!("creating new log file {:?}", log_name(metadata.log_id));
 
-    let mut manifest = OpenOptions::new()
-        .write(true)
-        .read(true)
-        .open(path.join(format!("tables/{}/metadata", metadata.table_name)))?;
-
-    write_metadata(&mut manifest, metadata)?;
+    write_metadata(&metadata_path(path, &metadata.table_name), metadata)?;
 
     trace!(
         "removing previous log file {:?}",
@@ -1270,8 +1272,7 @@ impl OptiDBImpl {
 
         let field = Field::new(field_name.to_string(), dt.clone().try_into()?, is_nullable);
         metadata.schema.fields.push(field.clone());
-        let mut mdf = tbl.metadata_f.lock();
-        write_metadata(mdf.get_mut(), &mut metadata)?;
+        write_metadata(&metadata_path(&self.path, tbl_name), &metadata)?;
 
         let mut memtable = tbl.memtable.lock();
         if memtable.cols_len() < metadata.schema.fields.len() {
@@ -1300,7 +1301,7 @@ impl OptiDBImpl {
             fs::create_dir_all(path.join("levels").join(lid.to_string()))?;
         }
 
-        let mut metadata = Metadata {
+        let metadata = Metadata {
             version: 0,
             log_id: 0,
             table_name: table_name.clone(),
@@ -1312,21 +1313,16 @@ impl OptiDBImpl {
 
         let memtable = Memtable::new();
         let log = OpenOptions::new()
-            .create_new(true)
+            .create(true)
+            .truncate(true)
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
-        let mut mdf = OpenOptions::new()
-            .create_new(true)
-            .write(true)
-            .read(true)
-            .open(path.join("metadata"))?;
-        write_metadata(&mut mdf, &mut metadata)?;
+        write_metadata(&metadata_path(&self.path, &table_name), &metadata)?;
         let tbl = Table {
             name: table_name.clone(),
             memtable: Arc::new(Mutex::new(memtable)),
             metadata: Arc::new(Mutex::new(metadata)),
-            metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
             log: Arc::new(Mutex::new(BufWriter::new(log))),
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
@@ -1474,12 +1470,10 @@ impl OptiDBImpl {
         for tbl in tables {
             fs::create_dir_all(path.join(format!("tables/{}", tbl.name)))?;
             // md
-            let md_path = path.join(format!("tables/{}/metadata", tbl.name));
-            let mut md_w = File::create(md_path)?;
             let mut md = tbl.metadata.clone();
             md.log_id = 0;
             md.version = version;
-            write_metadata(&mut md_w, &mut md)?;
+            write_metadata(&metadata_path(&path, &tbl.name), &md)?;
 
             // log
             let mut log_len_b = [0u8; mem::size_of::<u64>()];
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index 21c86c0..bc6441b 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -112,7 +112,6 @@ pub(crate) struct Table {
     pub(crate) name: String,
     pub(crate) memtable: Arc<Mutex<Memtable>>,
     pub(crate) metadata: Arc<Mutex<Metadata>>,
-    pub(crate) metadata_f: Arc<Mutex<BufWriter<File>>>,
     pub(crate) log: Arc<Mutex<BufWriter<File>>>,
     pub(crate) cas: Arc<RwLock<LruCache<Vec<Value>, i64>>>,
 }
-- 
2.43.0


From 8729c6a56d3e66f27f92ddeb2785e19034a1324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 20/80] fix: compact each selected part once

---
 src/storage/src/compaction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 767323e..d4b4a5e 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -229,6 +229,9 @@ pub(crate) fn determine_compaction(
                 to_compact.push(ToCompact::new(level_id, part.id));
             }
         }
+        // a part merged twice has its rows twice
+        to_compact.sort();
+        to_compact.dedup();
     } else {
         return Ok(None);
     }
-- 
2.43.0


From 89b0557eb57392e8f5f90631d83d70e229df381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 21/80] fix: compact parts that share only a boundary key

---
 src/storage/src/compaction.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index d4b4a5e..9f63abb 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -248,8 +248,16 @@ pub(crate) fn determine_compaction(
         .map(|tc| level.get_part(tc.part).max)
         .max()
         .unwrap();
+    // versions of one key belong together
+    let key_cols = if opts.is_replacing {
+        opts.index_cols - 1
+    } else {
+        opts.index_cols
+    };
     for part in &next_level.parts {
-        if cmp::max(part.min.clone(), min.clone()) < cmp::min(part.max.clone(), max.clone()) {
+        if cmp::max(&part.min[..key_cols], &min[..key_cols])
+            <= cmp::min(&part.max[..key_cols], &max[..key_cols])
+        {
             to_compact.push(ToCompact::new(level_id + 1, part.id));
         }
     }
-- 
2.43.0


From 9dacee63b339743b190dab2c7a6d081f6bea7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 22/80] fix: keep a moved part in place until the metadata says
 where it is

---
 src/storage/src/compaction.rs                | 14 +++++++++-----
 src/storage/src/lib.rs                       |  8 ++++++--
 src/storage/src/parquet/merge_data_arrays.rs | 10 ++++------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 9f63abb..797fb00 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -160,11 +160,10 @@ impl Compactor {
                             // drop because next fs operation is with locking
                             for op in res.fs_ops {
                                 match op {
-                                    FsOp::Rename(from, to) => {
-                                        trace!("renaming {from:?} to {to:?}");
-                                        // todo handle error
-                                        self.fs.rename(&from, &to).expect("rename failed");
+                                    FsOp::Move(from, to) => {
+                                        trace!("{from:?} is moved to {to:?}");
                                         self.fs.close(&from).expect("close failed");
+                                        self.fs.try_remove_file(&from).unwrap();
                                         self.fs.close(&to).expect("close failed");
                                     }
                                     FsOp::Delete(path) => {
@@ -310,7 +309,12 @@ fn compact(
                     let to = part_path(path, tbl_name, level_id + 1, part.id);
                     fs.open(&from)?;
                     fs.open(&to)?;
-                    fs_ops.push(FsOp::Rename(from, to));
+                    // the part has to be in both places until the metadata is written
+                    std::fs::copy(&from, &to)?;
+                    if level_id == 0 {
+                        l0_rem.push(to_compact[0].part);
+                    }
+                    fs_ops.push(FsOp::Move(from, to));
 
                     tmp_levels[level_id + 1].parts.push(part.clone());
                     tmp_levels[level_id + 1].part_id += 1;
diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index e869265..56ed729 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -172,7 +172,11 @@ impl Fs {
     }
     pub fn try_remove_file<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         if !self.is_opened(&path) {
-            return Ok(fs::remove_file(path)?);
+            return match fs::remove_file(path) {
+                // somebody else has just removed it
+                Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),
+                res => Ok(res?),
+            };
         }
         Ok(())
     }
@@ -196,6 +200,6 @@ impl Fs {
 
 #[derive(Debug, Clone)]
 pub(crate) enum FsOp {
-    Rename(PathBuf, PathBuf),
+    Move(PathBuf, PathBuf),
     Delete(PathBuf),
 }
diff --git a/src/storage/src/parquet/merge_data_arrays.rs b/src/storage/src/parquet/merge_data_arrays.rs
index 8e23b72..2b01e48 100644
--- a/src/storage/src/parquet/merge_data_arrays.rs
+++ b/src/storage/src/parquet/merge_data_arrays.rs
@@ -109,9 +109,8 @@ macro_rules! merge_arrays_inner {
 #[macro_export]
 macro_rules! merge_arrays {
     ($self:expr,$field:expr,$tmp_ty:path,$in_ty:ty, $out_ty:ty,$col:expr,$reorder:expr,$streams:expr) => {{
-        let mut out = merge_arrays_inner!(
-            $self, $field, $tmp_ty, $in_ty, $out_ty, $col, $reorder, $streams
-        );
+        let mut out =
+            merge_arrays_inner!($self, $field, $tmp_ty, $in_ty, $out_ty, $col, $reorder, $streams);
 
         out.as_box()
     }};
@@ -121,9 +120,8 @@ macro_rules! merge_arrays {
 #[macro_export]
 macro_rules! merge_primitive_arrays {
     ($self:expr,$field:expr,$tmp_ty:path,$in_ty:ty, $out_ty:ty,$col:expr,$reorder:expr,$streams:expr) => {{
-        let out = merge_arrays_inner!(
-            $self, $field, $tmp_ty, $in_ty, $out_ty, $col, $reorder, $streams
-        );
+        let out =
+            merge_arrays_inner!($self, $field, $tmp_ty, $in_ty, $out_ty, $col, $reorder, $streams);
 
         out.to($field.data_type().to_owned()).as_box()
     }};
-- 
2.43.0


From 91d4591fffe9b26f7105342e214e4e96bb53df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 23/80] fix: merge replacing tables to the whole latest version
 of each key

---
 src/storage/src/db.rs                        |   2 +-
 src/storage/src/memtable.rs                  |  36 ++--
 src/storage/src/parquet/arrow_merger.rs      | 178 ++++++++++++-------
 src/storage/src/parquet/merge_data_arrays.rs |  39 ++--
 src/storage/src/parquet/parquet_merger.rs    |  46 +++--
 5 files changed, 183 insertions(+), 118 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 0323619..86aaca8 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -676,7 +676,7 @@ impl OptiDBImpl {
             }
         }
         gauge!(METRIC_STORE_SCAN_PARTS, "table"=>tbl_name.to_string()).set(rdrs.len() as f64);
-        let iter = if rdrs.is_empty() {
+        let iter = if rdrs.is_empty() && !metadata.opts.is_replacing {
             Box::new(MemChunkIterator::new(maybe_chunk))
                 as Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>
         } else {
diff --git a/src/storage/src/memtable.rs b/src/storage/src/memtable.rs
index 1791d31..d29d0e7 100644
--- a/src/storage/src/memtable.rs
+++ b/src/storage/src/memtable.rs
@@ -162,30 +162,22 @@ impl Memtable {
 
         if is_replacing {
             let mut indices = MutablePrimitiveArray::<i64>::new();
-            if index_cols == 2 {
-                let a = arrs[0]
-                    .as_any()
-                    .downcast_ref::<arrow2::array::Int64Array>()
-                    .unwrap();
-
-                let b = arrs[1]
-                    .as_any()
-                    .downcast_ref::<arrow2::array::Int64Array>()
-                    .unwrap();
-
-                let mut last = None;
-                for row_id in 0..arrs[0].len() {
-                    if last.is_none() {
-                        last = Some(vec![a.value(row_id), b.value(row_id)]);
-                        continue;
-                    }
-                    if last != Some(vec![a.value(row_id), b.value(row_id)]) {
-                        indices.push(Some(row_id as i64 - 1));
-                        last = Some(vec![a.value(row_id), b.value(row_id)]);
-                    }
+            let keys = arrs[..index_cols]
+                .iter()
+                .map(|arr| {
+                    arr.as_any()
+                        .downcast_ref::<arrow2::array::Int64Array>()
+                        .unwrap()
+                })
+                .collect::<Vec<_>>();
+
+            // last row of each key
+            for row_id in 1..arrs[0].len() {
+                if keys.iter().any(|k| k.value(row_id) != k.value(row_id - 1)) {
+                    indices.push(Some(row_id as i64 - 1));
                 }
-                indices.push(Some(arrs[0].len() as i64 - 1));
             }
+            indices.push(Some(arrs[0].len() as i64 - 1));
 
             let idx = indices
                 .as_box()
diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index fbcf022..ad428a6 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -12,26 +12,25 @@ use arrow2::array::PrimitiveArray;
 use arrow2::chunk::Chunk;
 use arrow2::datatypes::DataType;
 use arrow2::datatypes::Schema;
-use arrow2::io::parquet::read::infer_schema;
-use arrow2::io::parquet::write::to_parquet_schema;
 use arrow2::types::NativeType;
 use metrics::counter;
-use parquet2::metadata::ColumnDescriptor;
 
 use crate::error::Result;
 use crate::error::StoreError;
 use crate::parquet::chunk_min_max;
-use crate::parquet::try_merge_arrow_schemas;
 use crate::parquet::ArrowIteratorImpl;
 use crate::parquet::OneColMergeRow;
+use crate::parquet::ThreeColMergeRow;
 use crate::parquet::TwoColMergeRow;
 use crate::KeyValue;
 
 // merge chunks with single column partition which is primitive
+// The result has the stream of each row in key order. Rows replaced by a later version are in the
+// order as well, but are not kept
 
 pub fn merge_one_primitive<T: NativeType + Ord>(
     chunks: Vec<&[Box<dyn Array>]>,
-) -> Result<Vec<i64>> {
+) -> Result<Vec<MergedRow>> {
     let arrs = chunks
         .iter()
         .enumerate()
@@ -56,7 +55,10 @@ pub fn merge_one_primitive<T: NativeType + Ord>(
     }
 
     while let Some(OneColMergeRow(row_idx, _)) = sort.pop() {
-        out.push(row_idx as i64);
+        out.push(MergedRow {
+            stream: row_idx,
+            keep: true,
+        });
     }
 
     Ok(out)
@@ -65,7 +67,7 @@ pub fn merge_one_primitive<T: NativeType + Ord>(
 pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
     chunks: Vec<&[Box<dyn Array>]>,
     is_replacing: bool,
-) -> Result<Vec<i64>> {
+) -> Result<Vec<MergedRow>> {
     let arrs = chunks
         .iter()
         .enumerate()
@@ -96,22 +98,64 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
     }
 
     while let Some(TwoColMergeRow(row_idx, v1, _)) = sort.pop() {
-        if is_replacing {
-            if let Some(v) = sort.peek() {
-                if v1 == v.1 {
-                    out.push(-1);
+        let replaced = is_replacing && sort.peek().map_or(false, |v| v1 == v.1);
+        out.push(MergedRow {
+            stream: row_idx,
+            keep: !replaced,
+        });
+    }
 
-                    continue;
-                }
-            }
+    Ok(out)
+}
+
+pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: NativeType + Ord>(
+    chunks: Vec<&[Box<dyn Array>]>,
+    is_replacing: bool,
+) -> Result<Vec<MergedRow>> {
+    let len = chunks.iter().map(|c| c[0].len()).sum();
+    let mut out = Vec::with_capacity(len);
+    let mut sort = BinaryHeap::<ThreeColMergeRow<T1, T2, T3>>::with_capacity(len);
+    for (stream, row) in chunks.iter().enumerate() {
+        let a = row[0]
+            .as_any()
+            .downcast_ref::<PrimitiveArray<T1>>()
+            .unwrap();
+        let b = row[1]
+            .as_any()
+            .downcast_ref::<PrimitiveArray<T2>>()
+            .unwrap();
+        let c = row[2]
+            .as_any()
+            .downcast_ref::<PrimitiveArray<T3>>()
+            .unwrap();
+        for idx in 0..a.len() {
+            sort.push(ThreeColMergeRow(
+                stream,
+                a.value(idx),
+                b.value(idx),
+                c.value(idx),
+            ));
         }
+    }
 
-        out.push(row_idx as i64);
+    while let Some(ThreeColMergeRow(row_idx, v1, v2, _)) = sort.pop() {
+        let replaced = is_replacing && sort.peek().map_or(false, |v| v1 == v.1 && v2 == v.2);
+        out.push(MergedRow {
+            stream: row_idx,
+            keep: !replaced,
+        });
     }
 
     Ok(out)
 }
 
+#[derive(Debug, Clone, Copy)]
+pub struct MergedRow {
+    pub stream: usize,
+    // false for rows replaced by a later version of the same key
+    pub keep: bool,
+}
+
 // Merge chunks
 
 // Merge multiple chunks into vector of MergedArrowChunk of arrays split by array_size
@@ -120,7 +164,7 @@ pub fn merge_chunks(
     chunks: Vec<&[Box<dyn Array>]>,
     index_cols: usize,
     is_replacing: bool,
-) -> Result<Vec<i64>> {
+) -> Result<Vec<MergedRow>> {
     let res = match index_cols {
         1 => match chunks[0][0].data_type() {
             DataType::Int64 => merge_one_primitive::<i64>(chunks)?,
@@ -131,7 +175,7 @@ pub fn merge_chunks(
                 )));
             }
         },
-        2 => match (chunks[0][0].data_type(), chunks[0][0].data_type()) {
+        2 => match (chunks[0][0].data_type(), chunks[0][1].data_type()) {
             (DataType::Int64, DataType::Int64) => {
                 merge_two_primitives::<i64, i64>(chunks, is_replacing)?
             }
@@ -142,6 +186,21 @@ pub fn merge_chunks(
                 )));
             }
         },
+        3 => match (
+            chunks[0][0].data_type(),
+            chunks[0][1].data_type(),
+            chunks[0][2].data_type(),
+        ) {
+            (DataType::Int64, DataType::Int64, DataType::Int64) => {
+                merge_three_primitives::<i64, i64, i64>(chunks, is_replacing)?
+            }
+            _ => {
+                return Err(StoreError::InvalidParameter(format!(
+                    "merge not implemented for type {:?}",
+                    chunks[0][0].data_type()
+                )));
+            }
+        },
         _ => {
             return Err(StoreError::InvalidParameter(format!(
                 "merge not implemented for {:?} columns",
@@ -278,8 +337,8 @@ impl Iterator for MemChunkIterator {
 type SendableChunk = Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>;
 
 pub struct MergingIterator {
-    // list of index cols (partitions) in parquet file
-    index_cols: Vec<ColumnDescriptor>,
+    // number of index cols (partitions) in parquet file
+    index_cols: usize,
     is_replacing: bool,
     array_size: usize,
     schema: Schema,
@@ -295,24 +354,11 @@ pub struct MergingIterator {
 impl MergingIterator {
     // Create new merger
     pub fn new(
-        mut readers: Vec<BufReader<File>>,
+        readers: Vec<BufReader<File>>,
         mem_chunk: Option<Chunk<Box<dyn Array>>>,
         schema: Schema,
         opts: Options,
     ) -> Result<Self> {
-        let arrow_schemas = readers
-            .iter_mut()
-            .map(|r| arrow2::io::parquet::read::read_metadata(r).and_then(|md| infer_schema(&md)))
-            .collect::<arrow2::error::Result<Vec<Schema>>>()?;
-        // make unified schema
-        let arrow_schema = try_merge_arrow_schemas(arrow_schemas)?;
-        // make parquet schema
-        let parquet_schema = to_parquet_schema(&arrow_schema)?;
-
-        let index_cols = (0..opts.index_cols)
-            .map(|idx| parquet_schema.columns()[idx].to_owned())
-            .collect::<Vec<_>>();
-
         let mut arrow_streams = readers
             .into_iter()
             .map(|v| {
@@ -327,7 +373,7 @@ impl MergingIterator {
         }
 
         let mut mr = Self {
-            index_cols,
+            index_cols: opts.index_cols,
             is_replacing: opts.is_replacing,
             array_size: opts.array_size,
             schema,
@@ -349,7 +395,7 @@ impl MergingIterator {
             .iter()
             .map(|chunk| chunk.columns())
             .collect::<Vec<_>>();
-        let reorder = merge_chunks(arrs, self.index_cols.len(), self.is_replacing)?;
+        let reorder = merge_chunks(arrs, self.index_cols, self.is_replacing)?;
 
         let cols_len = queue[0].columns().len();
         let mut arrs = (0..cols_len)
@@ -360,12 +406,11 @@ impl MergingIterator {
                     .collect::<Vec<_>>();
                 let mut arr_cursors = vec![0; arrs.len()];
                 let mut growable = make_growable(&arrs, false, reorder.len());
-                for idx in reorder.iter() {
-                    if *idx == -1 {
-                        continue;
+                for row in reorder.iter() {
+                    if row.keep {
+                        growable.extend(row.stream, arr_cursors[row.stream], 1);
                     }
-                    growable.extend(*idx as usize, arr_cursors[*idx as usize], 1);
-                    arr_cursors[*idx as usize] += 1;
+                    arr_cursors[row.stream] += 1;
                 }
 
                 growable.as_box()
@@ -375,7 +420,7 @@ impl MergingIterator {
         let mut out = vec![];
 
         let mut len = arrs[0].len();
-        for i in (0..reorder.len()).step_by(self.array_size) {
+        for i in (0..len).step_by(self.array_size) {
             let arrs = arrs
                 .iter_mut()
                 .map(|arr| arr.sliced(i, min(self.array_size, len)))
@@ -394,11 +439,7 @@ impl MergingIterator {
         }
 
         let chunk = add_null_cols_to_chunk(&maybe_chunk.unwrap()?, &self.schema)?;
-        Ok(Some(ArrowChunk::new(
-            chunk,
-            stream_id,
-            self.index_cols.len(),
-        )))
+        Ok(Some(ArrowChunk::new(chunk, stream_id, self.index_cols)))
     }
 }
 
@@ -417,62 +458,67 @@ fn add_null_cols_to_chunk(
     Ok(Chunk::new(cols))
 }
 
-impl Iterator for MergingIterator {
-    type Item = Result<Chunk<Box<dyn Array>>>;
-
-    fn next(&mut self) -> Option<Self::Item> {
+impl MergingIterator {
+    fn try_next(&mut self) -> Result<Option<Chunk<Box<dyn Array>>>> {
         if let Some(chunk) = self.merge_result_buffer.pop_front() {
-            return Some(Ok(chunk));
+            return Ok(Some(chunk));
         }
         let mut merge_queue: Vec<ArrowChunk> = vec![];
         if let Some(chunk) = self.sorter.pop() {
-            if let Some(chunk) = self.next_stream_chunk(chunk.stream).ok()? {
+            if let Some(chunk) = self.next_stream_chunk(chunk.stream)? {
                 // return Some(Ok(chunk.chunk.clone()));
                 self.sorter.push(chunk);
             }
             merge_queue.push(chunk);
         } else {
-            return None;
+            return Ok(None);
         };
 
         while check_intersection(
             &merge_queue,
             self.sorter.peek(),
-            self.index_cols.len(),
+            self.index_cols,
             self.is_replacing,
         ) {
             // in case of intersection, take chunk and add it to merge queue
             let next = self.sorter.pop().unwrap();
             // try to take next chunk of stream and add it to sorter
-            if let Some(chunk) = self.next_stream_chunk(next.stream).ok()? {
+            if let Some(chunk) = self.next_stream_chunk(next.stream)? {
                 self.sorter.push(chunk);
             }
             // push chunk to merge queue
             merge_queue.push(next);
         }
         // check queue len. Queue len may be 1 if there is no intersection
-        if merge_queue.len() > 1 {
+        // one chunk may still have several versions of a key
+        if merge_queue.len() > 1 || self.is_replacing {
             // in case of intersection, merge queue
-            let res = self
-                .merge_queue(
-                    &merge_queue
-                        .iter()
-                        .map(|chunk| &chunk.chunk)
-                        .collect::<Vec<_>>(),
-                )
-                .ok()?;
+            let res = self.merge_queue(
+                &merge_queue
+                    .iter()
+                    .map(|chunk| &chunk.chunk)
+                    .collect::<Vec<_>>(),
+            )?;
             // todo split arrays
             self.merge_result_buffer = VecDeque::from(res);
 
-            self.next()
+            self.try_next()
         } else {
             // queue contains only one chunk, so we can just push it to result
             let chunk = merge_queue.pop().unwrap();
 
-            Some(Ok(chunk.chunk))
+            Ok(Some(chunk.chunk))
         }
     }
 }
+
+impl Iterator for MergingIterator {
+    type Item = Result<Chunk<Box<dyn Array>>>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.try_next().transpose()
+    }
+}
 // #[cfg(test)]
 // mod tests {
 // use std::io::Cursor;
diff --git a/src/storage/src/parquet/merge_data_arrays.rs b/src/storage/src/parquet/merge_data_arrays.rs
index 2b01e48..823e661 100644
--- a/src/storage/src/parquet/merge_data_arrays.rs
+++ b/src/storage/src/parquet/merge_data_arrays.rs
@@ -53,13 +53,12 @@ macro_rules! merge_arrays_inner {
         let mut out = <$out_ty>::with_capacity($reorder.len());
         // go through each row idx in reorder, get stream id for row
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            let (stream_id, keep) = reorder_row($reorder[idx]);
             // push null if column doesn't exist
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if keep {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -76,7 +75,9 @@ macro_rules! merge_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let arr = arrs[stream_id].as_ref().unwrap();
-            if arr.is_null(cur_idx) {
+            if !keep {
+                // replaced by a later version
+            } else if arr.is_null(cur_idx) {
                 out.push_null();
             } else {
                 out.push(Some(arr.value(cur_idx)));
@@ -175,12 +176,11 @@ macro_rules! merge_list_arrays_inner {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            let (stream_id, keep) = reorder_row($reorder[idx]);
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if keep {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -208,7 +208,9 @@ macro_rules! merge_list_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if !keep {
+                // replaced by a later version
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
@@ -302,12 +304,11 @@ macro_rules! merge_list_primitive_arrays {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            let (stream_id, keep) = reorder_row($reorder[idx]);
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if keep {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -336,7 +337,9 @@ macro_rules! merge_list_primitive_arrays {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if !keep {
+                // replaced by a later version
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index f7ab56c..0130137 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -215,10 +215,10 @@ pub fn check_intersection(
     let mut max_values = first.max_values()[..index_cols - offset].to_vec();
     for row in iter {
         if row.min_values()[..index_cols - offset].to_vec() <= min_values {
-            min_values = row.min_values();
+            min_values = row.min_values()[..index_cols - offset].to_vec();
         }
         if row.max_values()[..index_cols - offset].to_vec() >= max_values {
-            max_values = row.max_values();
+            max_values = row.max_values()[..index_cols - offset].to_vec();
         }
     }
 
@@ -386,9 +386,19 @@ impl MergedPagesChunk {
 pub struct MergedArrowChunk {
     pub cols: Vec<Box<dyn Array>>,
     // contains the stream id of each row so we can take the rows in the correct order
+    // rows replaced by a later version have to be passed over. They are stored as -stream - 1
     pub reorder: Vec<i64>,
 }
 
+// stream of the row and whether the row is kept
+pub(crate) fn reorder_row(v: i64) -> (usize, bool) {
+    if v < 0 {
+        ((-v - 1) as usize, false)
+    } else {
+        (v as usize, true)
+    }
+}
+
 impl MergedArrowChunk {
     // Create new merged arrow chunk
     pub fn new(arrs: Vec<Box<dyn Array>>, reorder: Vec<i64>) -> Self {
@@ -504,7 +514,7 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
         if is_replacing {
             if let Some(v) = sort.peek() {
                 if v1 == v.1 {
-                    order.push(-1);
+                    order.push(-(chunks[arr_id].stream as i64) - 1);
 
                     continue;
                 }
@@ -541,6 +551,7 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
 pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: NativeType + Ord>(
     chunks: Vec<ArrowIndexChunk>,
     array_size: usize,
+    is_replacing: bool,
 ) -> Result<Vec<MergedArrowChunk>> {
     let mut arr_iters = chunks
         .iter()
@@ -583,16 +594,26 @@ pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: Na
     }
 
     while let Some(ThreeColMergeRow(row_idx, v1, v2, v3)) = sort.pop() {
-        out_col1.push(v1);
-        out_col2.push(v2);
-        out_col3.push(v3);
-        order.push(chunks[row_idx].stream as i64);
         if let Some(v1) = arr_iters[row_idx].0.next() {
             let v2 = arr_iters[row_idx].1.next().unwrap();
             let v3 = arr_iters[row_idx].2.next().unwrap();
             let mr = ThreeColMergeRow(row_idx, *v1, *v2, *v3);
             sort.push(mr);
         }
+        if is_replacing {
+            if let Some(v) = sort.peek() {
+                if v1 == v.1 && v2 == v.2 {
+                    order.push(-(chunks[row_idx].stream as i64) - 1);
+
+                    continue;
+                }
+            }
+        }
+
+        out_col1.push(v1);
+        out_col2.push(v2);
+        out_col3.push(v3);
+        order.push(chunks[row_idx].stream as i64);
 
         if out_col1.len() >= array_size {
             let out = vec![
@@ -615,8 +636,6 @@ pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: Na
         res.push(MergedArrowChunk::new(out, arr_order));
     }
 
-    dbg!(&res);
-
     Ok(res)
 }
 
@@ -691,7 +710,11 @@ pub fn merge_chunks(
                             ArrowPrimitiveType::Int64,
                             ArrowPrimitiveType::Int64,
                             ArrowPrimitiveType::Int64,
-                        ) => merge_three_primitives::<i64, i64, i64>(chunks, array_size),
+                        ) => merge_three_primitives::<i64, i64, i64>(
+                            chunks,
+                            array_size,
+                            is_replacing,
+                        ),
                         _ => unimplemented!(
                             "merge is not implemented for {a:?} {b:?} primitive types"
                         ),
@@ -1348,7 +1371,8 @@ where R: Read + Seek
             }
 
             // check queue len. Queue len may be 1 if there is no intersection
-            if self.merge_queue.len() > 1 {
+            // one chunk may still have several versions of a key
+            if self.merge_queue.len() > 1 || self.is_replacing {
                 // in case of intersection, merge queue
                 self.merge_queue()?;
             } else {
-- 
2.43.0


From 725d713a94dd7ccf40f1c41fb03e88065613298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 24/80] fix: group tables are replaced by project, id and
 version

---
 src/cmd/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 1ada380..29580e3 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -253,7 +253,8 @@ pub fn init_storage(db: &Arc<OptiDBImpl>, cfg: &Config) -> error::Result<()> {
         let tbl = TableOptions {
             levels: cfg.group_table.levels,
             merge_array_size: cfg.group_table.merge_array_size,
-            index_cols: 2,
+            // project, id and version
+            index_cols: 3,
             l1_max_size_bytes: cfg.group_table.l1_max_size_bytes,
             level_size_multiplier: cfg.group_table.level_size_multiplier,
             l0_max_parts: cfg.group_table.l0_max_parts,
-- 
2.43.0


From a95e044a325cfa2a1c993e704de11451319af161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 25/80] fix: a request to compact does not stop the compactor

---
 src/storage/src/compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 797fb00..2660f35 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -95,7 +95,7 @@ impl Compactor {
                             drop(dropper);
                             break;
                         }
-                        _ => unreachable!(),
+                        CompactorMessage::Compact => {}
                     },
                     Err(TryRecvError::Disconnected) => {
                         break;
-- 
2.43.0


From 4613bb7ae16bb0852bbcade1fa742223959e574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 26/80] fix: get looks at every part that may have the key and
 returns its latest version

---
 src/storage/src/db.rs       | 54 +++++++++++++++++++++----------------
 src/storage/src/memtable.rs | 10 +++++++
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 86aaca8..f571379 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -31,6 +31,7 @@ use arrow2::array::Int32Array;
 use arrow2::array::Int64Array;
 use arrow2::array::Int8Array;
 use arrow2::array::ListArray;
+use arrow2::array::Utf8Array;
 use arrow2::chunk::Chunk;
 use arrow2::datatypes::DataType;
 use arrow2::datatypes::Field;
@@ -883,29 +884,33 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
+        // held until the row is found, so that it isn't flushed or compacted away in between
+        let metadata = tbl.metadata.lock();
         let mt = tbl.memtable.lock();
-        if let Some(v) = mt.get(&key) {
-            return Ok(Some(v));
-        }
+        // the last index column of a replacing table is a version, the highest one counts
+        let version_col = metadata.opts.index_cols - 1;
+        let mut latest = if metadata.opts.is_replacing {
+            mt.get_latest(&key, version_col)
+        } else {
+            mt.get(&key)
+        };
         drop(mt);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        if latest.is_some() && !metadata.opts.is_replacing {
+            return Ok(latest);
+        }
 
         for (level_id, level) in metadata.levels.iter().enumerate() {
             let mut parts = level.parts.clone();
             parts.reverse();
             for part in parts.iter() {
-                let _offset = if metadata.opts.is_replacing { 1 } else { 0 };
-                if key >= part.min[..part.min.len()].to_vec()
-                    && key <= part.max[..part.max.len()].to_vec()
-                {
+                // the key may be a part of the index
+                if key[..] >= part.min[..key.len()] && key[..] <= part.max[..key.len()] {
                     let path = part_path(&self.path, tbl_name, level_id, part.id);
                     let mut rdr = File::open(path)?;
                     let parquet_md = read::read_metadata(&mut rdr)?;
                     let schema = read::infer_schema(&parquet_md)?;
 
-                    let mut found = None;
+                    let mut row_groups = vec![];
                     'g: for row_group_id in 0..parquet_md.row_groups.len() {
                         #[allow(clippy::needless_range_loop)]
                         for field_id in 0..key.len() {
@@ -936,17 +941,12 @@ impl OptiDBImpl {
                                 unreachable!();
                             }
                         }
-                        found = Some(row_group_id);
-                        break;
-                    }
-
-                    if found.is_none() {
-                        return Ok(None);
+                        row_groups.push(parquet_md.row_groups[row_group_id].clone());
                     }
 
                     let chunks = read::FileReader::new(
                         rdr,
-                        vec![parquet_md.row_groups[found.unwrap()].clone()],
+                        row_groups,
                         schema.clone(),
                         Some(1024 * 8 * 8), // todo make configurable?
                         None,
@@ -1066,14 +1066,14 @@ impl OptiDBImpl {
                                         DataType::Timestamp(_, _) => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<TimestampNanosecondArray>()
+                                                .downcast_ref::<Int64Array>()
                                                 .unwrap();
                                             vals.push(Value::Timestamp(Some(arr.value(row_id))));
                                         }
                                         DataType::Utf8 => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<StringArray>()
+                                                .downcast_ref::<Utf8Array<i32>>()
                                                 .unwrap();
                                             vals.push(Value::String(Some(
                                                 arr.value(row_id).to_string(),
@@ -1164,14 +1164,22 @@ impl OptiDBImpl {
                                 }
                             }
 
-                            return Ok(Some(vals));
+                            if !metadata.opts.is_replacing {
+                                return Ok(Some(vals));
+                            }
+                            // newer rows are looked at first
+                            let newer = latest.as_ref().map_or(true, |l| {
+                                KeyValue::from(&vals[version_col]) > KeyValue::from(&l[version_col])
+                            });
+                            if newer {
+                                latest = Some(vals);
+                            }
                         }
                     }
-                    return Ok(None);
                 }
             }
         }
-        Ok(None)
+        Ok(latest)
     }
     pub fn parts_path(&self, tbl_name: &str) -> Result<Vec<String>> {
         let tables = self.tables.read();
diff --git a/src/storage/src/memtable.rs b/src/storage/src/memtable.rs
index d29d0e7..5083a18 100644
--- a/src/storage/src/memtable.rs
+++ b/src/storage/src/memtable.rs
@@ -233,6 +233,16 @@ impl Memtable {
 
         None
     }
+
+    // the row of the key with the highest version, the last of them if there are several
+    pub(crate) fn get_latest(&self, key: &[KeyValue], version_col: usize) -> Option<Vec<Value>> {
+        let key = key.iter().map(Value::from).collect::<Vec<_>>();
+        (0..self.len())
+            .filter(|idx| (0..key.len()).all(|kid| self.cols[kid].values[*idx] == key[kid]))
+            .max_by_key(|idx| KeyValue::from(&self.cols[version_col].values[*idx]))
+            .map(|idx| self.cols.iter().map(|c| c.values[idx].clone()).collect())
+    }
+
     pub(crate) fn len(&self) -> usize {
         if self.cols_len() == 0 {
             return 0;
-- 
2.43.0


From 7474cf6cdabd6720596c708fa0dabb3d8f2c9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 27/80] fix: a version read by get_cas is good for one
 conditional write

---
 src/storage/src/db.rs    | 43 ++++++++++++++++++++++++++++++----------
 src/storage/src/table.rs |  3 ++-
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index f571379..1e1b74c 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -712,7 +712,26 @@ impl OptiDBImpl {
     // #[instrument(level = "trace", skip(self))]
     pub fn insert(&self, tbl_name: &str, values: Vec<NamedValue>) -> Result<()> {
         let _g = self.global_lock.read();
-        self.insert_row(tbl_name, values)
+        let tables = self.tables.read();
+        let tbl = tables.iter().find(|t| t.name == tbl_name);
+        let tbl = match tbl {
+            None => return Err(StoreError::Internal("table not found".to_string())),
+            Some(tbl) => tbl.to_owned(),
+        };
+        drop(tables);
+        let mut cache = tbl.cas.write();
+        let key_cols = tbl.metadata.lock().opts.index_cols - 1;
+        let key = values
+            .iter()
+            .take(key_cols)
+            .map(|nv| nv.value.to_owned())
+            .collect::<Vec<_>>();
+        self.insert_row(tbl_name, values)?;
+        // the version read before is not the latest one anymore
+        if let Some(read) = cache.peek_mut(&key) {
+            *read = None;
+        }
+        Ok(())
     }
 
     // the global lock has to be held by the caller
@@ -815,11 +834,6 @@ impl OptiDBImpl {
     }
 
     pub fn get_cas(&self, tbl_name: &str, key: Vec<KeyValue>) -> Result<Option<Vec<Value>>> {
-        let res = self.get(tbl_name, key.clone())?;
-        if res.is_none() {
-            return Ok(None);
-        }
-
         let tables = self.tables.read();
         let tbl = tables.iter().find(|t| t.name == tbl_name);
         let tbl = match tbl {
@@ -831,12 +845,14 @@ impl OptiDBImpl {
         let metadata = md.clone();
         drop(md);
 
+        // nothing may be written between the read and the note of it
+        let mut cache = tbl.cas.write();
+        let res = self.get(tbl_name, key)?;
         if let Some(res) = &res {
             if let Value::Int64(Some(cas)) = res[metadata.opts.index_cols - 1] {
-                let mut cache = tbl.cas.write();
                 let key = res[..metadata.opts.index_cols - 1].to_vec();
 
-                cache.put(key, cas);
+                cache.put(key, Some(cas));
             } else {
                 unreachable!();
             }
@@ -864,16 +880,21 @@ impl OptiDBImpl {
                 .iter()
                 .map(|nv| nv.value.to_owned())
                 .collect::<Vec<_>>();
-            if let Some(c) = cache.pop(&key) {
-                if c != cas {
+            if let Some(c) = cache.get(&key) {
+                if *c != Some(cas) {
                     return Err(StoreError::Internal("cas mismatch".to_string()));
                 }
             }
+            self.insert_row(tbl_name, values)?;
+            // the version is good for one write
+            if let Some(read) = cache.get_mut(&key) {
+                *read = None;
+            }
         } else {
             unreachable!();
         }
 
-        self.insert_row(tbl_name, values)
+        Ok(())
     }
 
     pub fn get(&self, tbl_name: &str, key: Vec<KeyValue>) -> Result<Option<Vec<Value>>> {
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index bc6441b..a9e7075 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -113,7 +113,8 @@ pub(crate) struct Table {
     pub(crate) memtable: Arc<Mutex<Memtable>>,
     pub(crate) metadata: Arc<Mutex<Metadata>>,
     pub(crate) log: Arc<Mutex<BufWriter<File>>>,
-    pub(crate) cas: Arc<RwLock<LruCache<Vec<Value>, i64>>>,
+    // version last read by get_cas, none once the row is written
+    pub(crate) cas: Arc<RwLock<LruCache<Vec<Value>, Option<i64>>>>,
 }
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub(crate) struct Metadata {
-- 
2.43.0


From ba42cca9c03f9bd4846b7dd9de757c7a14d4fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 28/80] fix: back up one state of each table and restore
 without second background threads

---
 src/storage/src/db.rs | 58 ++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 1e1b74c..50b5f60 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -159,9 +159,11 @@ fn collect_metrics(tables: Arc<RwLock<Vec<Table>>>) {
     }
 }
 
-fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
+fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>, lock: Arc<RwLock<()>>) {
     loop {
         thread::sleep(Duration::from_secs(1));
+        // files of a restore are left alone
+        let _g = lock.read();
         let tbl = tables.read().clone();
         for tbl in tbl {
             let md = tbl.metadata.lock();
@@ -403,9 +405,7 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     })
 }
 
-// #[instrument(level = "trace")]
-fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
-    let path = path.as_ref();
+fn recover_tables(path: &Path) -> Result<Vec<Table>> {
     fs::create_dir_all(path.join("tables"))?;
     let mut tables = vec![];
     let dir = fs::read_dir(path.join("tables"))?;
@@ -420,6 +420,13 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
             f.file_name().to_os_string().into_string().unwrap(),
         )?);
     }
+    Ok(tables)
+}
+
+// #[instrument(level = "trace")]
+fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
+    let path = path.as_ref();
+    let tables = recover_tables(path)?;
     // let trigger_compact = if metadata.partitions[0].parts.len() > 0
     //     && metadata.partitions[0].parts.len() > opts.l0_max_parts
     // {
@@ -439,7 +446,8 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let tables_cloned = tables.clone();
     let fs_cloned = fs.clone();
     let path_cloned = path.to_owned();
-    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned));
+    let lock_cloned = lock.clone();
+    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned, lock_cloned));
     Ok(OptiDBImpl {
         opts,
         tables,
@@ -1388,11 +1396,15 @@ impl OptiDBImpl {
         let lock = self.global_lock.write();
         let tables = self.tables.read();
         let mut mds = vec![];
+        let mut tbls = vec![];
+        let mut logs = vec![];
         for tbl in tables.iter() {
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.lock().log_id);
-            self.fs.open(&log_path)?;
-            // md snapshot here prevents metadata changes during backup
-            let md = tbl.metadata.lock().clone();
+            // snapshots of metadata and log prevent changes during backup
+            let tbl = table::serialize_table(tbl);
+            let md = tbl.metadata.clone();
+            let log = File::open(log_path(&self.path, &tbl.name, md.log_id))?;
+            logs.push((log.metadata()?.size(), log));
+            tbls.push(tbl);
             for (lid, lvl) in md.levels.iter().enumerate() {
                 for part in &lvl.parts {
                     let path = part_path(&self.path, &md.table_name, lid, part.id);
@@ -1402,16 +1414,12 @@ impl OptiDBImpl {
             }
             mds.push(md);
         }
-        let tables = tables.clone();
+        drop(tables);
         drop(lock);
         // version
         writer.write_all(VERSION.to_le_bytes().as_slice())?;
 
         // tables
-        let tbls = tables
-            .iter()
-            .map(table::serialize_table)
-            .collect::<Vec<_>>();
         let parts_size = tbls
             .iter()
             .map(|tbl| {
@@ -1428,20 +1436,10 @@ impl OptiDBImpl {
         writer.write_all(data.as_slice())?;
 
         // table
-        for tbl in tbls {
+        for (tbl, (log_len, log)) in tbls.into_iter().zip(logs) {
             // log
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.log_id);
-            let log_bak_path = format!(
-                "{}.bak",
-                log_path.clone().into_os_string().into_string().unwrap()
-            );
-            fs::copy(&log_path, &log_bak_path)?;
-            self.fs.close(&log_path)?;
-            let mut log = OpenOptions::new().read(true).open(&log_bak_path).unwrap();
-            writer.write_all(log.metadata()?.size().to_le_bytes().as_slice())?;
-            io::copy(&mut log, writer)?;
-            drop(log);
-            fs::remove_file(&log_bak_path)?;
+            writer.write_all(log_len.to_le_bytes().as_slice())?;
+            io::copy(&mut log.take(log_len), writer)?;
 
             // parts
             let mut psize = 0;
@@ -1532,11 +1530,9 @@ impl OptiDBImpl {
             return Err(StoreError::InvalidBackupMagicNumber);
         }
 
-        let db = recover(path, Options {})?;
-        // todo prevent the start of gc/compaction before tables are copied
-        let from = db.tables.read().clone();
+        let tables = recover_tables(&path)?;
         let mut to = self.tables.write();
-        *to = from;
+        *to = tables;
         Ok(())
     }
 
-- 
2.43.0


From 5eecb9c004e119be123d1b67aa2387ef82ace0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 29/80] fix: a closed store's garbage collector leaves files
 alone

It kept running with the tables of the closed store and removed the parts and
logs of the store opened on the same directory afterwards.
---
 src/storage/src/db.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 50b5f60..c65f37d 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -14,6 +14,8 @@ use std::path::Path;
 use std::path::PathBuf;
 use std::pin::Pin;
 use std::str::pattern::Pattern;
+use std::sync::atomic::AtomicBool;
+use std::sync::atomic::Ordering;
 use std::sync::mpsc;
 use std::sync::mpsc::Sender;
 use std::sync::Arc;
@@ -159,11 +161,21 @@ fn collect_metrics(tables: Arc<RwLock<Vec<Table>>>) {
     }
 }
 
-fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>, lock: Arc<RwLock<()>>) {
+fn gc(
+    tables: Arc<RwLock<Vec<Table>>>,
+    path: PathBuf,
+    fs: Arc<Fs>,
+    lock: Arc<RwLock<()>>,
+    stopped: Arc<AtomicBool>,
+) {
     loop {
         thread::sleep(Duration::from_secs(1));
         // files of a restore are left alone
         let _g = lock.read();
+        // the files may belong to another store by now
+        if stopped.load(Ordering::SeqCst) {
+            break;
+        }
         let tbl = tables.read().clone();
         for tbl in tbl {
             let md = tbl.metadata.lock();
@@ -247,6 +259,7 @@ pub struct OptiDBImpl {
     compactor_outbox: Sender<CompactorMessage>,
     path: PathBuf,
     fs: Arc<Fs>,
+    gc_stopped: Arc<AtomicBool>,
 }
 
 fn log_op(op: LogOp, log: &mut File) -> Result<usize> {
@@ -447,7 +460,17 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let fs_cloned = fs.clone();
     let path_cloned = path.to_owned();
     let lock_cloned = lock.clone();
-    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned, lock_cloned));
+    let stopped = Arc::new(AtomicBool::new(false));
+    let stopped_cloned = stopped.clone();
+    thread::spawn(move || {
+        gc(
+            tables_cloned,
+            path_cloned,
+            fs_cloned,
+            lock_cloned,
+            stopped_cloned,
+        )
+    });
     Ok(OptiDBImpl {
         opts,
         tables,
@@ -456,6 +479,7 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
         compactor_outbox,
         path: path.to_owned(),
         fs,
+        gc_stopped: stopped,
     })
 }
 
@@ -1546,6 +1570,11 @@ impl OptiDBImpl {
 
 impl Drop for OptiDBImpl {
     fn drop(&mut self) {
+        {
+            // waits for a running gc
+            let _g = self.global_lock.write();
+            self.gc_stopped.store(true, Ordering::SeqCst);
+        }
         let (tx, rx) = mpsc::channel();
         if self
             .compactor_outbox
-- 
2.43.0


From 50267d53a91fdffdf2ca301ada74caa3013c4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 30/80] fix: a backup that cannot be restored leaves the tables
 as they are

They were removed before the backup was read.
---
 src/storage/src/db.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index c65f37d..e102179 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1407,9 +1407,7 @@ impl OptiDBImpl {
 
     fn truncate_all(&self) -> Result<()> {
         let mut tables = self.tables.write();
-        for tbl in tables.iter() {
-            fs::remove_dir_all(self.path.join(format!("tables/{}", tbl.name)))?;
-        }
+        fs::remove_dir_all(self.path.join("tables"))?;
         *tables = vec![];
         Ok(())
     }
@@ -1505,8 +1503,12 @@ impl OptiDBImpl {
     pub fn full_restore<R: Read>(&self, reader: &mut R) -> Result<()> {
         let _g = self.backup_lock.lock();
         let _g = self.global_lock.write();
-        self.truncate_all().unwrap();
-        let path = self.path.clone();
+        // unpacked aside, so that a broken backup leaves the tables as they are
+        let path = self.path.join("restore");
+        if path.exists() {
+            fs::remove_dir_all(&path)?;
+        }
+        fs::create_dir_all(path.join("tables"))?;
         // version
         let mut version_b = [0u8; mem::size_of::<u64>()];
         reader.read_exact(&mut version_b)?;
@@ -1554,7 +1556,10 @@ impl OptiDBImpl {
             return Err(StoreError::InvalidBackupMagicNumber);
         }
 
-        let tables = recover_tables(&path)?;
+        self.truncate_all()?;
+        fs::rename(path.join("tables"), self.path.join("tables"))?;
+        fs::remove_dir_all(&path)?;
+        let tables = recover_tables(&self.path)?;
         let mut to = self.tables.write();
         *to = tables;
         Ok(())
-- 
2.43.0


From a2240ed9fc6e825f9b9114ba60358f33f0a8b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 31/80] fix: create a table once

Two users creating the same table at the same time both got it, with two sets
of rows over one log.
---
 src/storage/src/db.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index e102179..d6e4407 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1348,14 +1348,14 @@ impl OptiDBImpl {
 
     pub fn create_table(&self, table_name: String, opts: table::Options) -> Result<()> {
         let _g = self.global_lock.read();
-        let tbl = self.tables.read();
-        if tbl.iter().any(|t| t.name == table_name) {
+        // held until the table is there, so that nobody else creates it meanwhile
+        let mut tables = self.tables.write();
+        if tables.iter().any(|t| t.name == table_name) {
             return Err(StoreError::AlreadyExists(format!(
                 "Table with name {} already exists",
                 table_name
             )));
         }
-        drop(tbl);
         let path = self.path.join("tables").join(table_name.clone());
         fs::create_dir_all(&path)?;
         for lid in 0..opts.levels {
@@ -1388,7 +1388,6 @@ impl OptiDBImpl {
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
 
-        let mut tables = self.tables.write();
         tables.push(tbl);
         Ok(())
     }
-- 
2.43.0


From e5b7e02b1857154b27d5759d230bc958da917fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 32/80] fix: find an event by its name (both path parameters
 are taken at once)

---
 src/platform/src/http/events.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/platform/src/http/events.rs b/src/platform/src/http/events.rs
index 0837c3c..064b794 100644
--- a/src/platform/src/http/events.rs
+++ b/src/platform/src/http/events.rs
@@ -38,8 +38,7 @@ async fn get_by_id(
 async fn get_by_name(
     ctx: Context,
     Extension(provider): Extension<Arc<Events>>,
-    Path(project_id): Path<u64>,
-    Path(event_name): Path<String>,
+    Path((project_id, event_name)): Path<(u64, String)>,
 ) -> Result<Json<Event>> {
     Ok(Json(
         provider.get_by_name(ctx, project_id, &event_name).await?,
-- 
2.43.0


From 6edbda0236793866ec454576f6f92216cb23a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 33/80] fix: take group and property of a group property's path
 in the order of the path

---
 src/platform/src/http/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index c906d5e..8ad8c1e 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -29,7 +29,7 @@ async fn get_event_by_id(
 async fn get_group_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
-    Path((project_id, property_id, group_id)): Path<(u64, u64, usize)>,
+    Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
         provider.groups[group_id]
-- 
2.43.0


From dc54d7601d282eec9851bad4ab836fd06ffdfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 34/80] fix: answer not found for the properties of a group
 that can't exist

---
 src/platform/src/http/properties.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index 8ad8c1e..6270037 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -1,3 +1,5 @@
+use std::sync::Arc;
+
 use axum::extract::Extension;
 use axum::extract::Path;
 use axum::routing;
@@ -7,12 +9,21 @@ use serde_json::Value;
 
 use crate::http::PropertiesLayer;
 use crate::properties::ListPropertyValuesRequest;
+use crate::properties::Properties;
 use crate::properties::Property;
 use crate::properties::UpdatePropertyRequest;
 use crate::Context;
 use crate::ListResponse;
+use crate::PlatformError;
 use crate::Result;
 
+fn group(provider: &PropertiesLayer, group_id: usize) -> Result<&Arc<Properties>> {
+    provider
+        .groups
+        .get(group_id)
+        .ok_or_else(|| PlatformError::NotFound(format!("group {group_id} not found")))
+}
+
 async fn get_event_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
@@ -32,7 +43,7 @@ async fn get_group_by_id(
     Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .get_by_id(ctx, project_id, property_id)
             .await?,
     ))
@@ -57,7 +68,7 @@ async fn get_group_by_name(
     Path((project_id, group_id, prop_name)): Path<(u64, usize, String)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .get_by_name(ctx, project_id, &prop_name)
             .await?,
     ))
@@ -76,7 +87,9 @@ async fn list_group(
     Extension(provider): Extension<PropertiesLayer>,
     Path((project_id, group_id)): Path<(u64, usize)>,
 ) -> Result<Json<ListResponse<Property>>> {
-    Ok(Json(provider.groups[group_id].list(ctx, project_id).await?))
+    Ok(Json(
+        group(&provider, group_id)?.list(ctx, project_id).await?,
+    ))
 }
 
 async fn update_event(
@@ -100,7 +113,7 @@ async fn update_group(
     Json(request): Json<UpdatePropertyRequest>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .update(ctx, project_id, prop_id, request)
             .await?,
     ))
@@ -122,7 +135,7 @@ async fn delete_group(
     Path((project_id, group_id, prop_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .delete(ctx, project_id, prop_id)
             .await?,
     ))
-- 
2.43.0


From ccb90329f22ef27b16f1c93fc730bc7de0f1de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 35/80] fix: keep the backup schedule, the GCP key and the
 default password that are set

---
 src/platform/src/settings.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/platform/src/settings.rs b/src/platform/src/settings.rs
index 1f20941..07dde79 100644
--- a/src/platform/src/settings.rs
+++ b/src/platform/src/settings.rs
@@ -27,6 +27,9 @@ impl SettingsProvider {
         if let Some(v) = req.auth_refresh_token {
             settings.auth_refresh_token = v;
         }
+        if let Some(v) = req.auth_admin_default_password {
+            settings.auth_admin_default_password = v;
+        }
         if let Some(v) = req.backup_enabled {
             settings.backup_enabled = v;
         }
@@ -73,6 +76,29 @@ impl SettingsProvider {
         if let Some(v) = req.backup_provider_gcp_path {
             settings.backup_provider_gcp_path = v;
         }
+        if let Some(v) = req.backup_provider_gcp_key {
+            settings.backup_provider_gcp_key = v;
+        }
+        if let Some(v) = req.backup_schedule_interval {
+            settings.backup_schedule_interval = match v {
+                BackupScheduleInterval::Hourly => {
+                    metadata::settings::BackupScheduleInterval::Hourly
+                }
+                BackupScheduleInterval::Daily => metadata::settings::BackupScheduleInterval::Daily,
+                BackupScheduleInterval::Weekly => {
+                    metadata::settings::BackupScheduleInterval::Weekly
+                }
+                BackupScheduleInterval::Monthly => {
+                    metadata::settings::BackupScheduleInterval::Monthly
+                }
+                BackupScheduleInterval::Yearly => {
+                    metadata::settings::BackupScheduleInterval::Yearly
+                }
+            };
+        }
+        if let Some(v) = req.backup_schedule_start_hour {
+            settings.backup_schedule_start_hour = v;
+        }
 
         self.prov.save(&settings)?;
 
-- 
2.43.0


From a4de7f9acdb24535c6003cad2dacc3a4abde732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 36/80] fix: fields of an account that aren't changed may be
 left out of the update

---
 src/platform/src/accounts.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 645cb7f..9e83618 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -162,13 +162,22 @@ pub struct CreateAccountRequest {
 #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 #[serde(rename_all = "camelCase")]
 pub struct UpdateAccountRequest {
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub salt: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub password: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub email: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub name: OptionalProperty<Option<String>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub force_update_password: OptionalProperty<bool>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub role: OptionalProperty<Option<Role>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub organizations: OptionalProperty<Option<Vec<(u64, OrganizationRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub projects: OptionalProperty<Option<Vec<(u64, ProjectRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub teams: OptionalProperty<Option<Vec<(u64, Role)>>>,
 }
-- 
2.43.0


From db227a5a8c5a479a0d2eaaaa45acd32d3d2c5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 37/80] fix: an administrator's demand for a new password is
 kept when an account is updated

---
 src/platform/src/accounts.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 9e83618..cdf4662 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -71,6 +71,7 @@ impl Accounts {
             updated_by: ctx.account_id,
             email: req.email,
             name: req.name,
+            force_update_password: req.force_update_password,
             role: req.role,
             organizations: req.organizations,
             projects: req.projects,
-- 
2.43.0


From f8f769036c170a5fd9063ed073da3f941d368e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 38/80] fix: an email that is set on demand has to be one

---
 src/platform/src/auth/provider.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 7055321..ac76660 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -122,7 +122,11 @@ impl Auth {
             // find first organization
             let orgs = self.md.organizations.list()?;
             let org = orgs.data.iter().find(|org| org.is_member(account.id));
-            if let Some(org) = org { org.id } else { 0 }
+            if let Some(org) = org {
+                org.id
+            } else {
+                0
+            }
         };
 
         let tokens = self.make_tokens(account.id, org_id)?;
@@ -299,6 +303,11 @@ impl Auth {
         if !account.force_update_email {
             return Err(PlatformError::Forbidden("forbidden".to_string()));
         }
+
+        if !validate_email(&req.email) {
+            return Err(PlatformError::invalid_field("email", "invalid email"));
+        }
+
         let md_req = UpdateAccountRequest {
             updated_by: ctx.account_id,
             name: OptionalProperty::None,
-- 
2.43.0


From 5464e6a1ab7ade3fdb708a7f94ca9e6b540b9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 39/80] fix: show an event's user properties, not its custom
 ones

---
 src/platform/src/events.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/events.rs b/src/platform/src/events.rs
index b58a8d5..0355f95 100644
--- a/src/platform/src/events.rs
+++ b/src/platform/src/events.rs
@@ -221,8 +221,8 @@ impl Into<metadata::events::Event> for Event {
             status: self.status.into(),
             is_system: self.is_system,
             event_properties: None,
-            custom_properties: self.user_properties,
-            user_properties: None,
+            custom_properties: None,
+            user_properties: self.user_properties,
         }
     }
 }
@@ -244,7 +244,7 @@ impl Into<Event> for metadata::events::Event {
             status: self.status.into(),
             is_system: self.is_system,
             event_properties: self.event_properties,
-            user_properties: self.custom_properties,
+            user_properties: self.user_properties,
         }
     }
 }
-- 
2.43.0


From 6f46cab1988d29cf0b64c5e1dba2c9cb9583a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 40/80] fix: a bad request found by the metadata isn't an
 internal error of the ingester

---
 src/ingester/src/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ingester/src/error.rs b/src/ingester/src/error.rs
index 57fa152..aed91ff 100644
--- a/src/ingester/src/error.rs
+++ b/src/ingester/src/error.rs
@@ -37,6 +37,8 @@ impl IntoResponse for IngesterError {
                 MetadataError::AlreadyExists(err) => ApiError::conflict(err).into_response(),
                 MetadataError::NotFound(err) => ApiError::not_found(err).into_response(),
                 MetadataError::Internal(err) => ApiError::internal(err).into_response(),
+                MetadataError::BadRequest(err) => ApiError::bad_request(err).into_response(),
+                MetadataError::Forbidden(err) => ApiError::forbidden(err).into_response(),
                 _ => ApiError::internal(err.to_string()).into_response(),
             },
             IngesterError::Maxmind(err) => ApiError::internal(err).into_response(),
-- 
2.43.0


From c32cc33f2c65582832ceb63aa6284a9291ca71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 41/80] fix: the user of an event with both ids isn't the
 anonymous one

---
 src/ingester/src/executor.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index aa7dea7..8d1677a 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -167,15 +167,23 @@ impl Executor<Track> {
 
                 (id, None)
             }
-            (Some(aid), Some(uid)) => {
+            (Some(user_id), Some(anonymous_id)) => {
                 let group = self.md.groups.merge_with_anonymous(
                     ctx.project_id.unwrap(),
                     GROUP_USER_ID as u64,
-                    aid.as_str(),
-                    uid.as_str(),
+                    anonymous_id.as_str(),
+                    user_id.as_str(),
                     vec![],
                 )?;
-                (group.id, None)
+                self.md.dictionaries.create_key(
+                    ctx.project_id.unwrap(),
+                    TABLE_EVENTS,
+                    group_col(GROUP_USER_ID).as_str(),
+                    group.id,
+                    user_id.as_str(),
+                )?;
+
+                (group.id, Some(group))
             }
             _ => {
                 return Err(IngesterError::BadRequest(
-- 
2.43.0


From 171c86d76c45c1b845154d998fc445ddaeeb5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 42/80] fix: encode a group's properties with that group's
 dictionary

---
 src/ingester/src/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 8d1677a..53819fb 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -315,7 +315,7 @@ impl Executor<Identify> {
             for prop in props {
                 let v = property_to_value(
                     &ctx,
-                    group_col(req.group_id as usize).as_str(),
+                    group_col(group.id as usize).as_str(),
                     prop,
                     &self.md.dictionaries,
                 )?;
-- 
2.43.0


From 30800e6892e0ceb9dbf5267e59f9bee49451363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 43/80] fix: store decimals with the scale of their column

---
 src/ingester/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0f0717a..6cf6523 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -5,6 +5,8 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::types::DType;
+use common::DECIMAL_PRECISION;
+use common::DECIMAL_SCALE;
 use error::Result;
 use metadata::dictionaries::Dictionaries;
 use metadata::events;
@@ -91,6 +93,17 @@ pub enum PropValue {
     Bool(bool),
 }
 
+// decimals are stored with a fixed scale
+fn decimal_to_scaled(val: &Decimal) -> Result<i128> {
+    let val = val.round_dp(DECIMAL_SCALE as u32);
+    let scaled = val
+        .mantissa()
+        .checked_mul(10i128.pow(DECIMAL_SCALE as u32 - val.scale()))
+        .filter(|v| v.unsigned_abs() < 10u128.pow(DECIMAL_PRECISION as u32));
+
+    scaled.ok_or_else(|| IngesterError::BadRequest(format!("number {val} is too big")))
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -123,7 +136,7 @@ fn property_to_value(
             (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
             (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
-            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
+            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(decimal_to_scaled(v)?)),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
             _ => {
-- 
2.43.0


From 9677a19f9a1d4370b20a0e8ef92e277a065cc139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 44/80] fix: session events are created at milliseconds, as all
 others

---
 src/cmd/src/lib.rs                           | 2 +-
 src/ingester/src/destinations/local/track.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 29580e3..89a25f1 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -398,7 +398,7 @@ fn init_session_cleaner(
                             vec![
                                 NamedValue::new(
                                     COLUMN_CREATED_AT.to_string(),
-                                    Value::Timestamp(Some(now.timestamp())),
+                                    Value::Timestamp(Some(now.timestamp_millis())),
                                 ),
                                 NamedValue::new(
                                     COLUMN_EVENT_ID.to_string(),
diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index fbf3398..9641450 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -238,7 +238,7 @@ impl Destination<Track> for Local {
                 vec![
                     NamedValue::new(
                         COLUMN_CREATED_AT.to_string(),
-                        Value::Timestamp(Some(req.timestamp.timestamp())),
+                        Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                     ),
                     NamedValue::new(
                         COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From 7efbb6f5d82e7036ff762e0f0070f6d543b09497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 45/80] fix: accept date properties

---
 src/ingester/src/executor.rs | 2 +-
 src/ingester/src/lib.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 53819fb..e511d64 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -44,7 +44,7 @@ fn resolve_property(
     val: PropValue,
 ) -> Result<PropertyAndValue> {
     let data_type = match val {
-        PropValue::Date(_) => DType::Int64,
+        PropValue::Date(_) => DType::Timestamp,
         PropValue::String(_) => DType::String,
         PropValue::Number(_) => DType::Decimal,
         PropValue::Bool(_) => DType::Boolean,
diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 6cf6523..6a4c5b5 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -138,7 +138,7 @@ fn property_to_value(
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(decimal_to_scaled(v)?)),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
-            (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
+            (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
                 return Err(IngesterError::Internal(
                     "property should be a string".to_string(),
-- 
2.43.0


From 74542e9df818d054a7904f5f832076457d2ae7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 46/80] fix: a refused event doesn't begin a session

---
 src/ingester/src/destinations/local/track.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index 9641450..6aefc93 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -43,13 +43,6 @@ impl Local {
 
 impl Destination<Track> for Local {
     fn send(&self, ctx: &RequestContext, req: Track) -> Result<()> {
-        let ts = Utc::now();
-        let is_new_session = self.md.sessions.set_current_time(
-            ctx.project_id.unwrap(),
-            req.resolved_user_id.unwrap() as u64,
-            ts,
-        )?;
-
         // fill group id for each of GROUPS_COUNT groups
         let groups = if let Some(groups) = &req.resolved_group_values {
             let mut found = HashMap::new();
@@ -210,6 +203,12 @@ impl Destination<Track> for Local {
         } else {
             vec![]
         };
+        let is_new_session = self.md.sessions.set_current_time(
+            ctx.project_id.unwrap(),
+            req.resolved_user_id.unwrap() as u64,
+            Utc::now(),
+        )?;
+
         if is_new_session {
             let record_id = self
                 .md
-- 
2.43.0


From 0985af948511ce519009b606f514eb559c75db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 47/80] fix: set the patch version of a client

---
 src/ingester/src/transformers/user_agent/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ingester/src/transformers/user_agent/mod.rs b/src/ingester/src/transformers/user_agent/mod.rs
index 70865cb..f03685a 100644
--- a/src/ingester/src/transformers/user_agent/mod.rs
+++ b/src/ingester/src/transformers/user_agent/mod.rs
@@ -60,6 +60,18 @@ pub fn resolve_properties(
         props.push(prop);
     }
 
+    // client version patch
+    if let Some(v) = client.user_agent.patch {
+        let property =
+            props_prov.get_by_name(proj_id, types::EVENT_PROPERTY_CLIENT_VERSION_PATCH)?;
+
+        let prop = PropertyAndValue {
+            property,
+            value: PropValue::String(v.to_string()),
+        };
+        props.push(prop);
+    }
+
     // device family
     {
         let property = props_prov.get_by_name(proj_id, types::EVENT_PROPERTY_DEVICE_FAMILY)?;
-- 
2.43.0


From 0fcc4b7d2eca5c8a057c143de5fe13401b298add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 48/80] fix: none of the values of a negative filter matches

---
 src/query/src/expr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d7c78e2..d13d8c1 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -336,7 +336,11 @@ pub fn named_property_expression(
                         })
                         .collect();
 
-                    multi_or(exprs)
+                    // a negative operation holds if it holds for every value
+                    match operation {
+                        PropValueOperation::Neq | PropValueOperation::NotRegex => multi_and(exprs),
+                        _ => multi_or(exprs),
+                    }
                 }
             })
         }
@@ -378,7 +382,7 @@ pub fn named_property_expression(
                         .map(|v| prop_col.to_owned().not_like(lit(v.to_owned())))
                         .collect();
 
-                    multi_or(exprs)
+                    multi_and(exprs)
                 }
             })
         }
-- 
2.43.0


From ab4cc6ca8902535c0bd56b045979060ac76e18d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 49/80] fix: events without a group don't break the measures
 per group

---
 .../expressions/aggregate/partitioned/aggregate.rs     |  5 ++++-
 .../expressions/aggregate/partitioned/count.rs         | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index ee8b263..a537f45 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -205,7 +205,10 @@ macro_rules! agg {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
+                    // an event outside of any group has nothing to be counted in
+                    let Some(partition) = partition else {
+                        continue;
+                    };
                     if self.skip {
                         if self.skip_partition != partition {
                             self.skip = false;
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
index 675796f..c6fe58e 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
@@ -159,7 +159,10 @@ macro_rules! count {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
+                    // an event outside of any group has nothing to be counted in
+                    let Some(partition) = partition else {
+                        continue;
+                    };
                     if self.skip {
                         if self.skip_partition != partition {
                             self.skip = false;
@@ -354,7 +357,10 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
             .clone();
 
         for (row_id, partition) in partitions.into_iter().enumerate() {
-            let partition = partition.unwrap();
+            // an event outside of any group has nothing to be counted in
+            let Some(partition) = partition else {
+                continue;
+            };
             if self.skip {
                 if self.skip_partition != partition {
                     self.skip = false;
-- 
2.43.0


From 7da45d81e4c7c5eaf93266d7c3a790dd1cb884c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 50/80] fix: events without the property don't count as zero in
 aggregates per group

---
 .../expressions/aggregate/partitioned/aggregate.rs            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index a537f45..47cf295 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -209,6 +209,10 @@ macro_rules! agg {
                     let Some(partition) = partition else {
                         continue;
                     };
+                    // an event without the property has no value to aggregate
+                    if predicate.is_null(row_id) {
+                        continue;
+                    }
                     if self.skip {
                         if self.skip_partition != partition {
                             self.skip = false;
-- 
2.43.0


From 693c7eabd352e676e2f0578c7265ecf94ac8d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 51/80] fix: break reports down by boolean, date and narrow
 integer properties

---
 src/query/src/physical_plan/limit_groups.rs | 43 +++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/query/src/physical_plan/limit_groups.rs b/src/query/src/physical_plan/limit_groups.rs
index deba152..4907d11 100644
--- a/src/query/src/physical_plan/limit_groups.rs
+++ b/src/query/src/physical_plan/limit_groups.rs
@@ -8,14 +8,20 @@ use std::task::Poll;
 
 use arrow::array::Array;
 use arrow::array::ArrayRef;
+use arrow::array::BooleanArray;
 use arrow::array::Decimal128Array;
+use arrow::array::Int16Array;
+use arrow::array::Int32Array;
 use arrow::array::Int64Array;
 use arrow::array::Int64Builder;
+use arrow::array::Int8Array;
 use arrow::array::RecordBatch;
 use arrow::array::StringArray;
+use arrow::array::TimestampMillisecondArray;
 use arrow::compute::take;
 use arrow::datatypes::DataType;
 use arrow::datatypes::SchemaRef;
+use arrow::datatypes::TimeUnit;
 use async_trait::async_trait;
 use datafusion::execution::RecordBatchStream;
 use datafusion::execution::SendableRecordBatchStream;
@@ -35,6 +41,8 @@ use crate::Result;
 
 #[derive(Clone, Debug, Hash, PartialEq, Eq)]
 enum Value {
+    Boolean(Option<bool>),
+    Timestamp(Option<i64>),
     Int64(Option<i64>),
     Decimal(Option<i128>),
     String(Option<String>),
@@ -150,6 +158,41 @@ impl Stream for AggregateAndSortColumnsStream {
                     .take(self.groups) // get all groups, ignore agg_name
                     .zip(batch.schema().fields().iter().skip(self.skip))
                     .map(|(col, f)| match f.data_type() {
+                        DataType::Boolean => col
+                            .as_any()
+                            .downcast_ref::<BooleanArray>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Boolean)
+                            .collect::<Vec<_>>(),
+                        DataType::Timestamp(TimeUnit::Millisecond, _) => col
+                            .as_any()
+                            .downcast_ref::<TimestampMillisecondArray>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Timestamp)
+                            .collect::<Vec<_>>(),
+                        DataType::Int8 => col
+                            .as_any()
+                            .downcast_ref::<Int8Array>()
+                            .unwrap()
+                            .iter()
+                            .map(|v| Value::Int64(v.map(|v| v as i64)))
+                            .collect::<Vec<_>>(),
+                        DataType::Int16 => col
+                            .as_any()
+                            .downcast_ref::<Int16Array>()
+                            .unwrap()
+                            .iter()
+                            .map(|v| Value::Int64(v.map(|v| v as i64)))
+                            .collect::<Vec<_>>(),
+                        DataType::Int32 => col
+                            .as_any()
+                            .downcast_ref::<Int32Array>()
+                            .unwrap()
+                            .iter()
+                            .map(|v| Value::Int64(v.map(|v| v as i64)))
+                            .collect::<Vec<_>>(),
                         DataType::Int64 => col
                             .as_any()
                             .downcast_ref::<Int64Array>()
-- 
2.43.0


From 850a674236f63aecc923c3fbe4938f29e8f5ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 52/80] fix: the filters of the events of a custom event take
 part in queries

---
 src/query/src/event_records.rs      | 31 ++++++++++++++++---------
 src/query/src/event_segmentation.rs | 35 ++++++++++++++++-------------
 src/query/src/funnel.rs             | 29 +++++++++++-------------
 src/query/src/lib.rs                | 23 +++++++++++++++++--
 4 files changed, 74 insertions(+), 44 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index da18973..76db7f9 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -55,6 +55,7 @@ use crate::col_name;
 use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
+use crate::event_filters;
 use crate::execute;
 use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
@@ -503,16 +504,14 @@ fn decode_filter_dictionaries(
 
     if let Some(events) = events {
         for event in events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
+                decode_filter_single_dictionary(
+                    ctx,
+                    metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
     }
@@ -542,6 +541,18 @@ fn projection(
         COLUMN_CREATED_AT.to_string(),
         COLUMN_EVENT_ID.to_string(),
     ];
+    if let Some(events) = &req.events {
+        for event in events {
+            for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+                match &filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, property, md)?)
+                    }
+                }
+            }
+        }
+    }
+
     if let Some(filters) = &req.filters {
         for filter in filters {
             match filter {
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 127c8ea..c578a8e 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -48,6 +48,7 @@ use crate::context::Format;
 use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
+use crate::event_filters;
 use crate::execute;
 use crate::expr::breakdown_expr;
 use crate::expr::event_expression;
@@ -176,12 +177,10 @@ fn projection(
     ];
 
     for event in &req.events {
-        if let Some(filters) = &event.filters {
-            for filter in filters {
-                match filter {
-                    PropValueFilter::Property { property, .. } => {
-                        fields.push(col_name(ctx, property, md)?)
-                    }
+        for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+            match &filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, property, md)?)
                 }
             }
         }
@@ -552,16 +551,20 @@ impl LogicalPlanBuilder {
         let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
         for event in &self.es.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        &self.ctx,
-                        &self.metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            let filters = event_filters(
+                &self.ctx,
+                &self.metadata,
+                &event.event,
+                event.filters.as_ref(),
+            )?;
+            for filter in &filters {
+                decode_filter_single_dictionary(
+                    &self.ctx,
+                    &self.metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    filter,
+                )?;
             }
         }
 
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4a1bf68..2c1ef71 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -51,6 +51,7 @@ use crate::col_name;
 use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
+use crate::event_filters;
 use crate::execute;
 use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
@@ -436,16 +437,14 @@ fn decode_filter_dictionaries(
 
     for step in &funnel.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
+                decode_filter_single_dictionary(
+                    ctx,
+                    metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
     }
@@ -499,12 +498,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     for step in &req.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+                match &filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, property, md)?)
                     }
                 }
             }
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6564a0a..39db4b3 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -51,6 +51,7 @@ use arrow::datatypes::SchemaRef;
 use arrow::datatypes::TimeUnit;
 use arrow2::array::Int128Array;
 use common::group_col;
+use common::query::EventRef;
 use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
@@ -445,6 +446,25 @@ pub async fn execute(
     Ok(res)
 }
 
+/// filters that apply to an event: its own ones and, if the event is a custom one, those of the
+/// events it is made of
+pub fn event_filters(
+    ctx: &Context,
+    metadata: &Arc<MetadataProvider>,
+    event: &EventRef,
+    filters: Option<&Vec<PropValueFilter>>,
+) -> Result<Vec<PropValueFilter>> {
+    let mut out = filters.cloned().unwrap_or_default();
+    if let EventRef::Custom(id) = event {
+        let custom = metadata.custom_events.get_by_id(ctx.project_id, *id)?;
+        for e in custom.events.iter() {
+            out.extend(event_filters(ctx, metadata, &e.event, e.filters.as_ref())?);
+        }
+    }
+
+    Ok(out)
+}
+
 pub fn decode_filter_single_dictionary(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
@@ -488,11 +508,10 @@ pub fn decode_filter_single_dictionary(
                     metadata.dictionaries.clone(),
                 );
                 let col = datafusion_common::Column::from_name(col_name);
-                decode_cols.push((col, Arc::new(dict)));
-
                 if cols_hash.contains_key(prop.column_name().as_str()) {
                     return Ok(());
                 }
+                decode_cols.push((col, Arc::new(dict)));
                 cols_hash.insert(prop.column_name(), ());
             }
             _ => {}
-- 
2.43.0


From 4ab43930675d3cd92637d72f99a8b8bc8e9e62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 53/80] fix: filters by text and by pattern on the same
 property go together

---
 src/query/src/event_records.rs      |  4 ++--
 src/query/src/event_segmentation.rs | 19 +++++++++++++------
 src/query/src/expr.rs               | 26 ++++++++++++++++++++------
 src/query/src/funnel.rs             | 10 +++++-----
 src/query/src/group_records.rs      |  2 +-
 src/query/src/properties.rs         |  6 +++++-
 6 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 76db7f9..7ffe18c 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -283,14 +283,14 @@ pub fn build_search_plan(
         let mut exprs = vec![];
         for event in events {
             // event expression
-            let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema(), &event.event)?;
             // apply event filters
             if let Some(filters) = &event.filters
                 && !filters.is_empty()
             {
                 expr = and(
                     expr.clone(),
-                    event_filters_expression(&ctx, &metadata, filters)?,
+                    event_filters_expression(&ctx, &metadata, input.schema(), filters)?,
                 )
             }
 
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index c578a8e..701eb89 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -21,6 +21,7 @@ use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
 use datafusion::functions::datetime::date_trunc::DateTruncFunc;
 use datafusion_common::Column;
+use datafusion_common::DFSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
@@ -263,7 +264,11 @@ impl LogicalPlanBuilder {
                 for conditions in segment.conditions {
                     let mut and: Option<SegmentExpr> = None;
                     for condition in conditions {
-                        let expr = builder.build_segment_condition(&condition, es.group_id)?;
+                        let expr = builder.build_segment_condition(
+                            input.schema(),
+                            &condition,
+                            es.group_id,
+                        )?;
                         and = match and {
                             None => Some(expr),
                             Some(e) => Some(SegmentExpr::And(Box::new(e), Box::new(expr))),
@@ -454,6 +459,7 @@ impl LogicalPlanBuilder {
 
     fn build_segment_condition(
         &self,
+        schema: &DFSchema,
         condition: &SegmentCondition,
         group_id: usize,
     ) -> Result<SegmentExpr> {
@@ -468,6 +474,7 @@ impl LogicalPlanBuilder {
                 let filter = property_expression(
                     &self.ctx,
                     &self.metadata,
+                    schema,
                     TABLE_EVENTS,
                     property,
                     operation,
@@ -490,12 +497,12 @@ impl LogicalPlanBuilder {
                 aggregate,
             } => {
                 // event expression
-                let mut event_expr = event_expression(&self.ctx, &self.metadata, event)?;
+                let mut event_expr = event_expression(&self.ctx, &self.metadata, schema, event)?;
                 // apply event filters
                 if let Some(filters) = &filters {
                     event_expr = and(
                         event_expr.clone(),
-                        event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                        event_filters_expression(&self.ctx, &self.metadata, schema, filters)?,
                     )
                 }
                 match aggregate {
@@ -751,13 +758,13 @@ impl LogicalPlanBuilder {
         // event expression
         expr = and(
             expr,
-            event_expression(&self.ctx, &self.metadata, &event.event)?,
+            event_expression(&self.ctx, &self.metadata, input.schema(), &event.event)?,
         );
         // apply event filters
         if let Some(filters) = &event.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, input.schema(), filters)?,
             )
         }
 
@@ -765,7 +772,7 @@ impl LogicalPlanBuilder {
         if let Some(filters) = &self.es.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, input.schema(), filters)?,
             );
         }
 
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d13d8c1..ad305aa 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -13,6 +13,7 @@ use common::query::QueryTime;
 use common::types::COLUMN_EVENT;
 use common::types::TABLE_EVENTS;
 use datafusion_common::Column;
+use datafusion_common::DFSchema;
 use datafusion_common::ExprSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::col;
@@ -60,6 +61,7 @@ pub fn time_expression<S: ExprSchema>(
 pub fn event_expression(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &DFSchema,
     event: &EventRef,
 ) -> Result<Expr> {
     Ok(match &event {
@@ -84,20 +86,20 @@ pub fn event_expression(
             for event in e.events.iter() {
                 let mut expr = match &event.event {
                     EventRef::RegularName(name) => {
-                        event_expression(ctx, metadata, &EventRef::RegularName(name.to_owned()))?
+                        event_expression(ctx, metadata, schema, &EventRef::RegularName(name.to_owned()))?
                     }
                     EventRef::Regular(id) => {
-                        event_expression(ctx, metadata, &EventRef::Regular(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Regular(*id))?
                     }
                     EventRef::Custom(id) => {
-                        event_expression(ctx, metadata, &EventRef::Custom(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Custom(*id))?
                     }
                 };
 
                 if let Some(filters) = &event.filters {
                     expr = and(
                         expr.clone(),
-                        event_filters_expression(ctx, metadata, filters)?,
+                        event_filters_expression(ctx, metadata, schema, filters)?,
                     );
                 }
 
@@ -118,6 +120,7 @@ pub fn event_expression(
 pub fn event_filters_expression(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &DFSchema,
     filters: &[PropValueFilter],
 ) -> Result<Expr> {
     // iterate over filters
@@ -136,7 +139,7 @@ pub fn event_filters_expression(
                         PropertyRef::Event(_) => TABLE_EVENTS.to_string(),
                         PropertyRef::Custom(_) => unimplemented!(),
                     };
-                    property_expression(ctx, metadata, &tbl, property, operation, value.clone())
+                    property_expression(ctx, metadata, schema, &tbl, property, operation, value.clone())
                 }
             }
         })
@@ -205,6 +208,7 @@ pub fn encode_property_dict_values(
 
 fn prop_expression(
     ctx: &Context,
+    schema: &DFSchema,
     tbl: &str,
     prop: &Arc<metadata::properties::Properties>,
     dicts: &Arc<metadata::dictionaries::Dictionaries>,
@@ -230,7 +234,14 @@ fn prop_expression(
         _ => {}
     }
 
-    if let Some(dict_type) = prop.dictionary_type {
+    // the column may be decoded already, if another filter needs its text
+    let is_decoded = schema
+        .field_with_unqualified_name(col_name.as_str())
+        .map_or(false, |f| f.data_type() == &DataType::Utf8);
+
+    if let Some(dict_type) = prop.dictionary_type
+        && !is_decoded
+    {
         let dict_values = encode_property_dict_values(
             ctx,
             tbl,
@@ -249,6 +260,7 @@ fn prop_expression(
 pub fn property_expression(
     ctx: &Context,
     md: &Arc<MetadataProvider>,
+    schema: &DFSchema,
     tbl: &str,
     property: &PropertyRef,
     operation: &PropValueOperation,
@@ -257,6 +269,7 @@ pub fn property_expression(
     match property {
         PropertyRef::Group(prop_name, group) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.group_properties[*group],
             &md.dictionaries,
@@ -266,6 +279,7 @@ pub fn property_expression(
         ),
         PropertyRef::Event(prop_name) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.event_properties,
             &md.dictionaries,
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 2c1ef71..9aef3a9 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -260,7 +260,7 @@ pub fn build(
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
     if let Some(filters) = &req.filters {
-        expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
+        expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?)
     }
     let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
 
@@ -274,9 +274,9 @@ pub fn build(
         for step in req.steps.iter() {
             let mut exprs = vec![];
             for event in step.events.iter() {
-                let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+                let mut expr = event_expression(&ctx, &metadata, input.schema(), &event.event)?;
                 if let Some(filters) = &event.filters {
-                    expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                    expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
                 }
                 exprs.push(expr)
             }
@@ -294,9 +294,9 @@ pub fn build(
     let exclude = if let Some(excludes) = &req.exclude {
         let mut out = vec![];
         for exclude in excludes {
-            let mut expr = event_expression(&ctx, &metadata, &exclude.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema(), &exclude.event)?;
             if let Some(filters) = &exclude.filters {
-                expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
             }
             let steps = if let Some(steps) = &exclude.steps {
                 let steps = match steps {
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3cacf3e..a8da732 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -265,7 +265,7 @@ pub fn build_search_plan(
     }
 
     if let Some(filters) = &req.filters {
-        let expr = event_filters_expression(&ctx, &metadata, filters)?;
+        let expr = event_filters_expression(&ctx, &metadata, input.schema(), filters)?;
         filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
     }
 
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index c252562..90422c5 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -129,7 +129,10 @@ impl LogicalPlanBuilder {
         );
 
         if let Some(event) = &req.event {
-            expr = and(expr, event_expression(&ctx, &metadata, event)?);
+            expr = and(
+                expr,
+                event_expression(&ctx, &metadata, input.schema(), event)?,
+            );
         }
 
         let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
@@ -166,6 +169,7 @@ impl LogicalPlanBuilder {
                 property_expression(
                     &ctx,
                     &metadata,
+                    input.schema(),
                     TABLE_EVENTS,
                     &req.property,
                     &filter.operation,
-- 
2.43.0


From 557814c12346e570d68c70a8edd62ff54e8a0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 54/80] fix: text of other projects doesn't break filters by
 pattern

---
 src/query/src/event_records.rs      |  5 ++++-
 src/query/src/event_segmentation.rs |  3 +++
 src/query/src/funnel.rs             |  5 ++++-
 src/query/src/group_records.rs      |  3 +++
 src/query/src/lib.rs                | 16 ++++++++++++++++
 5 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 7ffe18c..d2f1f33 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -66,6 +66,7 @@ use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
+use crate::project_plan;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -525,7 +526,9 @@ fn decode_filter_dictionaries(
     if decode_cols.is_empty() {
         return Ok(input);
     }
-    Ok(LogicalPlan::Extension(Extension {
+    // keys of other projects are unknown to the dictionaries
+    let input = project_plan(ctx, COLUMN_PROJECT_ID, input)?;
+Ok(LogicalPlan::Extension(Extension {
         node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
     }))
 }
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 701eb89..91e2bcf 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -77,6 +77,7 @@ use crate::logical_plan::segment::SegmentExpr;
 use crate::logical_plan::segment::SegmentNode;
 use crate::logical_plan::unpivot::UnpivotNode;
 use crate::logical_plan::SortField;
+use crate::project_plan;
 use crate::segment_plan;
 use crate::segment_projection;
 use crate::ColumnType;
@@ -591,6 +592,8 @@ impl LogicalPlanBuilder {
             return Ok(input);
         }
 
+        // keys of other projects are unknown to the dictionaries
+        let input = project_plan(&self.ctx, COLUMN_PROJECT_ID, input)?;
         Ok(LogicalPlan::Extension(Extension {
             node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
         }))
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 9aef3a9..7a0757e 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -64,6 +64,7 @@ use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_or;
 use crate::logical_plan::funnel::FunnelNode;
 use crate::logical_plan::SortField;
+use crate::project_plan;
 use crate::Context;
 
 pub struct FunnelProvider {
@@ -457,7 +458,9 @@ fn decode_filter_dictionaries(
     if decode_cols.is_empty() {
         return Ok(input);
     }
-    Ok(LogicalPlan::Extension(Extension {
+    // keys of other projects are unknown to the dictionaries
+    let input = project_plan(ctx, COLUMN_PROJECT_ID, input)?;
+Ok(LogicalPlan::Extension(Extension {
         node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
     }))
 }
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index a8da732..ecdf21c 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -61,6 +61,7 @@ use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
+use crate::project_plan;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -452,6 +453,8 @@ fn decode_filter_dictionaries(
     if decode_cols.is_empty() {
         return Ok(input);
     }
+    // keys of other projects are unknown to the dictionaries
+    let input = project_plan(ctx, GROUP_COLUMN_PROJECT_ID, input)?;
     Ok(LogicalPlan::Extension(Extension {
         node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
     }))
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 39db4b3..0218de5 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -70,8 +70,13 @@ use datafusion::physical_plan::display::DisplayableExecutionPlan;
 use datafusion::prelude::SessionConfig;
 use datafusion::prelude::SessionContext;
 use datafusion_common::ScalarValue;
+use datafusion_expr::binary_expr;
+use datafusion_expr::col;
+use datafusion_expr::lit;
 use datafusion_expr::Extension;
+use datafusion_expr::Filter;
 use datafusion_expr::LogicalPlan;
+use datafusion_expr::Operator;
 pub use error::Result;
 use metadata::dictionaries::SingleDictionaryProvider;
 use metadata::MetadataProvider;
@@ -446,6 +451,17 @@ pub async fn execute(
     Ok(res)
 }
 
+/// leaves rows of the current project only
+pub fn project_plan(ctx: &Context, col_project_id: &str, input: LogicalPlan) -> Result<LogicalPlan> {
+    let expr = binary_expr(
+        col(col_project_id),
+        Operator::Eq,
+        lit(ScalarValue::from(ctx.project_id as i64)),
+    );
+
+    Ok(LogicalPlan::Filter(Filter::try_new(expr, Arc::new(input))?))
+}
+
 /// filters that apply to an event: its own ones and, if the event is a custom one, those of the
 /// events it is made of
 pub fn event_filters(
-- 
2.43.0


From 33ad5ee450f9280b56502bfe8b44e37651d96868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 55/80] fix: decimals in the filters of a custom event keep
 their value

---
 src/metadata/src/custom_events.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 85544a9..b7a1d47 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -426,13 +426,13 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         bool: v.map(|v| v as u32),
                                         timestamp: None,
                                     },
-                                    ScalarValue::Decimal128(v, _, _) => custom_event::Value {
+                                    ScalarValue::Decimal128(v, _, s) => custom_event::Value {
                                         string: None,
                                         int8: None,
                                         int16: None,
                                         int32: None,
                                         int64: None,
-                                        decimal: v.map(|v| v.to_le_bytes().to_vec()),
+                                        decimal: v.map(|v| rescale(v, *s).to_le_bytes().to_vec()),
                                         bool: None,
                                         timestamp: None,
                                     },
@@ -536,6 +536,16 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
     Ok(ce.encode_to_vec())
 }
 
+/// value of a decimal in units of the common scale, which decimals are read back with
+fn rescale(v: i128, scale: i8) -> i128 {
+    let diff = DECIMAL_SCALE - scale;
+    if diff >= 0 {
+        v * 10_i128.pow(diff as u32)
+    } else {
+        v / 10_i128.pow(-diff as u32)
+    }
+}
+
 fn deserialize(data: &[u8]) -> Result<CustomEvent> {
     let from = custom_event::CustomEvent::decode(data)?;
 
-- 
2.43.0


From ba9bbbe32aa1b3baa5464a5e81889030cc843c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 56/80] fix: show decimals beyond 64 bits of units in filters

---
 src/platform/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index d5e934b..c7c1be9 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -324,7 +324,12 @@ pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
         ScalarValue::Decimal128(Some(v), _p, s) => Value::Number(
-            Number::from_f64(Decimal::new(*v as i64, *s as u32).to_f64().unwrap()).unwrap(),
+            Number::from_f64(
+                Decimal::from_i128_with_scale(*v, *s as u32)
+                    .to_f64()
+                    .unwrap(),
+            )
+            .unwrap(),
         ),
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
         ScalarValue::Utf8(Some(v)) => Value::String(v.to_owned()),
-- 
2.43.0


From b965baa56b531aeb80fa6094668d051151caa2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 57/80] fix: dates in the filters of a custom event are
 compared as dates

---
 src/query/src/expr.rs |  7 ++++++-
 src/query/src/lib.rs  | 19 +++----------------
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index ad305aa..3cb8542 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -29,6 +29,7 @@ use metadata::properties::DictionaryType;
 use metadata::MetadataProvider;
 
 use crate::error::QueryError;
+use crate::fix_filter;
 use crate::logical_plan::expr::lit_timestamp;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
@@ -97,9 +98,13 @@ pub fn event_expression(
                 };
 
                 if let Some(filters) = &event.filters {
+                    let filters = filters
+                        .iter()
+                        .map(|filter| fix_filter(metadata, ctx.project_id, filter))
+                        .collect::<Result<Vec<_>>>()?;
                     expr = and(
                         expr.clone(),
-                        event_filters_expression(ctx, metadata, schema, filters)?,
+                        event_filters_expression(ctx, metadata, schema, &filters)?,
                     );
                 }
 
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 0218de5..db4cd17 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -624,22 +624,9 @@ pub fn fix_filter(
             if let Some(value) = value {
                 for value in value {
                     match (&prop.data_type, value) {
-                        (&DType::Timestamp, &ScalarValue::Decimal128(_, _, _)) => {
-                            match filter.clone() {
-                                PropValueFilter::Property { value, .. } => {
-                                    for value in value.unwrap().iter() {
-                                        if let ScalarValue::Decimal128(Some(ts), _, _) = value {
-                                            let sv = ScalarValue::TimestampMillisecond(
-                                                Some(*ts as i64),
-                                                None,
-                                            );
-                                            ev.push(sv);
-                                        } else {
-                                            unreachable!()
-                                        }
-                                    }
-                                }
-                            };
+                        (&DType::Timestamp, &ScalarValue::Decimal128(ts, _, scale)) => {
+                            let ts = ts.map(|ts| (ts / 10_i128.pow(scale as u32)) as i64);
+                            ev.push(ScalarValue::TimestampMillisecond(ts, None));
                         }
                         _ => ev.push(value.to_owned()),
                     }
-- 
2.43.0


From b918b55432e8867e6b3519614260fc484e2c8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 58/80] fix: measures of a report don't count the values of the
 others as zeros

---
 .../src/physical_plan/segmented_aggregate.rs  | 37 +++++--------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index d505d7d..96f8c72 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -24,8 +24,6 @@ use arrow::record_batch::RecordBatch;
 use arrow_row::SortField;
 use axum::async_trait;
 use common::types::COLUMN_PROJECT_ID;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::expressions::col;
 use datafusion::physical_expr::expressions::Column;
@@ -414,15 +412,14 @@ impl Stream for PartialAggregateStream {
                         })
                         .collect::<Vec<_>>()
                 } else {
-                    vec![
-                        self.named_agg_expr
-                            .iter()
-                            .map(|(e, _name)| {
-                                let agg = e.lock().unwrap();
-                                Arc::new(Mutex::new(agg.make_new().unwrap()))
-                            })
-                            .collect::<Vec<_>>(),
-                    ]
+                    vec![self
+                        .named_agg_expr
+                        .iter()
+                        .map(|(e, _name)| {
+                            let agg = e.lock().unwrap();
+                            Arc::new(Mutex::new(agg.make_new().unwrap()))
+                        })
+                        .collect::<Vec<_>>()]
                 }
             };
             self.agg_expr = agg_expr;
@@ -483,23 +480,7 @@ impl Stream for PartialAggregateStream {
                         |field| match batch.schema().index_of(field.name().as_str()) {
                             Ok(col_idx) => Ok(batch.column(col_idx).clone()),
                             Err(_) => {
-                                let v = match field.data_type() {
-                                    DataType::Int8 => ScalarValue::Int8(Some(0)),
-                                    DataType::Int16 => ScalarValue::Int16(Some(0)),
-                                    DataType::Int32 => ScalarValue::Int32(Some(0)),
-                                    DataType::Int64 => ScalarValue::Int64(Some(0)),
-                                    DataType::UInt8 => ScalarValue::UInt8(Some(0)),
-                                    DataType::UInt16 => ScalarValue::UInt16(Some(0)),
-                                    DataType::UInt32 => ScalarValue::UInt32(Some(0)),
-                                    DataType::UInt64 => ScalarValue::UInt64(Some(0)),
-                                    DataType::Decimal128(_, _) => ScalarValue::Decimal128(
-                                        Some(0),
-                                        DECIMAL_PRECISION,
-                                        DECIMAL_SCALE,
-                                    ),
-                                    DataType::Float64 => ScalarValue::Float64(Some(0.)),
-                                    _ => unimplemented!("{:?}", field.data_type()),
-                                };
+                                let v = ScalarValue::try_from(field.data_type())?;
                                 Ok(v.to_array_of_size(batch.column(0).len())?)
                             }
                         },
-- 
2.43.0


From 01a22aa89adba0e7cf1e347bc05fd64008521e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 59/80] fix: average of a report is the average over all its
 events

---
 src/query/src/physical_plan/segmented_aggregate.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index 96f8c72..8cb8e8c 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -241,6 +241,14 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
     }
 
     fn required_input_distribution(&self) -> Vec<Distribution> {
+        // average of averages of partitions isn't an average of all the events
+        let avg = self
+            .agg_expr
+            .iter()
+            .any(|(agg, _)| agg.lock().unwrap().op() == "avg");
+        if avg && self.segment_inputs.is_none() {
+            return vec![Distribution::SinglePartition];
+        }
         // todo make it configurable, don't use project_id and user_id entities
         vec![Distribution::HashPartitioned(vec![
             Arc::new(Column::new_with_schema("project_id", &self.input.schema()).unwrap()),
-- 
2.43.0


From c080cfe7c112d88f7e589c2da43cfe3e877dd5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 60/80] fix: a report can be broken down when some of its
 values are missing

---
 src/query/src/logical_plan/unpivot.rs  | 2 +-
 src/query/src/physical_plan/unpivot.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/logical_plan/unpivot.rs b/src/query/src/logical_plan/unpivot.rs
index 706273a..e9cabd1 100644
--- a/src/query/src/logical_plan/unpivot.rs
+++ b/src/query/src/logical_plan/unpivot.rs
@@ -49,7 +49,7 @@ impl UnpivotNode {
 
             let name_field = Arc::new(Field::new(name_col.as_str(), DataType::Utf8, false));
             fields.push(name_field);
-            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, false));
+            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, true));
             fields.push(value_field);
 
             Arc::new(DFSchema::from_unqualifed_fields(
diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 490af00..0b4477c 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -111,7 +111,7 @@ impl UnpivotExec {
 
             let name_field = Field::new(name_col.as_str(), DataType::Utf8, false);
             fields.push(FieldRef::new(name_field));
-            let value_field = Field::new(value_col.as_str(), value_type, false);
+            let value_field = Field::new(value_col.as_str(), value_type, true);
             fields.push(FieldRef::new(value_field));
 
             Arc::new(Schema::new(fields))
-- 
2.43.0


From 27fb8f2655677cc00a0b603f7c1847d6627eb74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 61/80] fix: rows of different breakdown values aren't mixed up

---
 src/query/src/physical_plan/pivot.rs | 39 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/query/src/physical_plan/pivot.rs b/src/query/src/physical_plan/pivot.rs
index 2a2b363..78d4628 100644
--- a/src/query/src/physical_plan/pivot.rs
+++ b/src/query/src/physical_plan/pivot.rs
@@ -5,7 +5,6 @@ use std::sync::Arc;
 use std::task::Context;
 use std::task::Poll;
 
-use ahash::RandomState;
 use arrow::array::Array;
 use arrow::array::ArrayRef;
 use arrow::array::StringArray;
@@ -19,7 +18,6 @@ use axum::async_trait;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::EquivalenceProperties;
 use datafusion::physical_plan::expressions::Column;
-use datafusion::physical_plan::hash_utils::create_hashes;
 use datafusion::physical_plan::metrics::BaselineMetrics;
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::metrics::MetricsSet;
@@ -205,8 +203,8 @@ struct PivotStream {
     name_col: Column,
     value_col: Column,
     value_type: DataType,
-    group_map: FnvHashMap<u64, u32>,
-    unique_groups: Vec<(u64, Vec<ScalarValue>)>,
+    group_map: FnvHashMap<Vec<ScalarValue>, u32>,
+    unique_groups: Vec<Vec<ScalarValue>>,
     result_map: FnvHashMap<String, Vec<ScalarValue>>,
     finished: bool,
     baseline_metrics: BaselineMetrics,
@@ -247,9 +245,6 @@ impl RecordBatchStream for PivotStream {
 
 impl PivotStream {
     fn pivot_batch(&mut self, batch: &RecordBatch) -> ArrowResult<()> {
-        let random_state = RandomState::with_seeds(0, 0, 0, 0);
-        let mut batch_hashes = vec![0; batch.num_rows()];
-
         let c = arrow::compute::cast(batch.column(self.name_col.index()), &DataType::Utf8)?;
         let name_arr = c
             .as_any()
@@ -262,17 +257,21 @@ impl PivotStream {
             .iter()
             .map(|col| batch.column(col.index()).clone())
             .collect();
-        create_hashes(&group_arrs, &random_state, &mut batch_hashes)?;
 
-        for (row, hash) in batch_hashes.into_iter().enumerate() {
-            let group_idx = *self.group_map.entry(hash).or_insert_with(|| {
-                let group_values = group_arrs
-                    .iter()
-                    .map(|arr| ScalarValue::try_from_array(arr, row).unwrap())
-                    .collect();
-                self.unique_groups.push((hash, group_values));
-                self.unique_groups.len() as u32 - 1
-            });
+        for row in 0..batch.num_rows() {
+            let group_values = group_arrs
+                .iter()
+                .map(|arr| ScalarValue::try_from_array(arr, row))
+                .collect::<DFResult<Vec<_>>>()?;
+            let group_idx = match self.group_map.get(&group_values) {
+                Some(group_idx) => *group_idx,
+                None => {
+                    let group_idx = self.unique_groups.len() as u32;
+                    self.unique_groups.push(group_values.clone());
+                    self.group_map.insert(group_values, group_idx);
+                    group_idx
+                }
+            };
 
             let group_idx = group_idx as usize;
             let col_name = name_arr.value(row);
@@ -285,9 +284,9 @@ impl PivotStream {
                     .into());
                 }
                 Some(values) => {
-                    if values.len() - 1 < group_idx {
+                    if values.len() <= group_idx {
                         values.resize(
-                            values.len() + BUFFER_LENGTH,
+                            group_idx + BUFFER_LENGTH,
                             ScalarValue::try_from(&self.value_type)?,
                         );
                     }
@@ -312,7 +311,7 @@ impl PivotStream {
                 let scalars: Vec<ScalarValue> = self
                     .unique_groups
                     .iter()
-                    .map(|(_, values)| values[idx].to_owned())
+                    .map(|values| values[idx].to_owned())
                     .collect();
                 ScalarValue::iter_to_array(scalars)
             })
-- 
2.43.0


From 46600edbe92f9d06c41f64c093a62334fe2efbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 62/80] fix: segments consider users without events of interest
 and keep their column's name

---
 .../expressions/segmentation/aggregate.rs     | 58 +++++++++------
 .../expressions/segmentation/count.rs         | 72 ++++++++++---------
 src/query/src/physical_plan/segment.rs        |  5 +-
 3 files changed, 78 insertions(+), 57 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
index deb0825..633fab0 100644
--- a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
@@ -144,6 +144,8 @@ where T: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Display
     last_partition: i64,
     res: Int64Builder,
     first: bool,
+    // the partition has no values so far
+    empty: bool,
 }
 
 #[derive(Debug)]
@@ -178,6 +180,7 @@ where OT: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Displa
             last_partition: 0,
             res: Int64Builder::with_capacity(1000),
             first: true,
+            empty: true,
         };
         Self {
             filter,
@@ -193,6 +196,22 @@ where OT: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Displa
     }
 }
 
+impl<T, OT, Op> Aggregate<T, OT, Op>
+where
+    OT: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Display,
+    Op: ComparisonOp<OT>,
+{
+    fn append_result(&self, inner: &mut Inner<OT>) {
+        // there is nothing to compare if there were no values
+        if !inner.empty && Op::perform(inner.agg.result(), self.right) {
+            let v = inner.last_partition;
+            inner.res.append_value(v);
+        } else {
+            inner.res.append_null();
+        }
+    }
+}
+
 macro_rules! agg {
     ($ty:ty,$array_ty:ident,$acc_ty:ty) => {
         impl<Op> SegmentExpr for Aggregate<$ty, $acc_ty, Op>
@@ -236,31 +255,32 @@ macro_rules! agg {
                     .unwrap()
                     .clone();
                 for (row_id, partition) in partition.into_iter().enumerate() {
+                    // an event outside of any partition counts for none
+                    let Some(partition) = partition else {
+                        continue;
+                    };
                     if inner.first {
                         inner.first = false;
-                        inner.last_partition = partition.unwrap();
+                        inner.last_partition = partition;
                     }
+
+                    // partitions without events of interest have a result as well
+                    if inner.last_partition != partition {
+                        self.append_result(&mut inner);
+                        inner.agg.reset();
+                        inner.empty = true;
+                        inner.last_partition = partition;
+                    }
+
                     if !self.time_range.check_bounds(ts.value(row_id)) {
                         continue;
                     }
 
-                    if !check_filter(&filter, row_id) {
+                    if !check_filter(&filter, row_id) || predicate.is_null(row_id) {
                         continue;
                     }
 
-                    if inner.last_partition != partition.unwrap() {
-                        let res = Op::perform(inner.agg.result(), self.right);
-
-                        if !res {
-                            inner.res.append_null();
-                        } else {
-                            let p = inner.last_partition;
-                            inner.res.append_value(p);
-                        }
-
-                        inner.agg.reset();
-                        inner.last_partition = partition.unwrap();
-                    }
+                    inner.empty = false;
                     inner.agg.accumulate(predicate.value(row_id) as $acc_ty);
                 }
                 Ok(())
@@ -268,12 +288,8 @@ macro_rules! agg {
 
             fn finalize(&self) -> Result<Int64Array> {
                 let mut inner = self.inner.lock().unwrap();
-                let res = Op::perform(inner.agg.result(), self.right);
-                if !res {
-                    inner.res.append_null();
-                } else {
-                    let v = inner.last_partition;
-                    inner.res.append_value(v);
+                if !inner.first {
+                    self.append_result(&mut inner);
                 }
 
                 Ok(inner.res.finish())
diff --git a/src/query/src/physical_plan/expressions/segmentation/count.rs b/src/query/src/physical_plan/expressions/segmentation/count.rs
index 73079e8..2a638ec 100644
--- a/src/query/src/physical_plan/expressions/segmentation/count.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/count.rs
@@ -63,6 +63,28 @@ impl<Op> Count<Op> {
     }
 }
 
+impl<Op> Count<Op>
+where Op: ComparisonOp<i64>
+{
+    fn append_result(&self, inner: &mut Inner) {
+        let res = match Op::op() {
+            Operator::Lt => inner.count < self.right,
+            Operator::LtEq => inner.count <= self.right,
+            Operator::Eq => inner.count == self.right,
+            Operator::NotEq => inner.count != self.right,
+            Operator::Gt => inner.count > self.right,
+            Operator::GtEq => inner.count >= self.right,
+        };
+
+        if res {
+            let v = inner.last_partition;
+            inner.res.append_value(v);
+        } else {
+            inner.res.append_null();
+        }
+    }
+}
+
 impl<Op> SegmentExpr for Count<Op>
 where Op: ComparisonOp<i64>
 {
@@ -94,10 +116,22 @@ where Op: ComparisonOp<i64>
             .unwrap()
             .clone();
         for (row_id, partition) in partition.into_iter().enumerate() {
+            // an event outside of any partition counts for none
+            let Some(partition) = partition else {
+                continue;
+            };
             if inner.first {
                 inner.first = false;
-                inner.last_partition = partition.unwrap();
+                inner.last_partition = partition;
             }
+
+            // partitions without events of interest have a result as well
+            if inner.last_partition != partition {
+                self.append_result(&mut inner);
+                inner.last_partition = partition;
+                inner.count = 0;
+            }
+
             if !self.time_range.check_bounds(ts.value(row_id)) {
                 continue;
             }
@@ -106,26 +140,6 @@ where Op: ComparisonOp<i64>
                 continue;
             }
 
-            if inner.last_partition != partition.unwrap() {
-                let res = match Op::op() {
-                    Operator::Lt => inner.count < self.right,
-                    Operator::LtEq => inner.count <= self.right,
-                    Operator::Eq => inner.count == self.right,
-                    Operator::NotEq => inner.count != self.right,
-                    Operator::Gt => inner.count > self.right,
-                    Operator::GtEq => inner.count >= self.right,
-                };
-
-                if !res {
-                    inner.res.append_null();
-                } else {
-                    let v = inner.last_partition;
-                    inner.res.append_value(v);
-                }
-                inner.last_partition = partition.unwrap();
-
-                inner.count = 0;
-            }
             inner.count += 1;
         }
         Ok(())
@@ -133,20 +147,8 @@ where Op: ComparisonOp<i64>
 
     fn finalize(&self) -> Result<Int64Array> {
         let mut inner = self.inner.lock().unwrap();
-        let res = match Op::op() {
-            Operator::Lt => inner.count < self.right,
-            Operator::LtEq => inner.count <= self.right,
-            Operator::Eq => inner.count == self.right,
-            Operator::NotEq => inner.count != self.right,
-            Operator::Gt => inner.count > self.right,
-            Operator::GtEq => inner.count >= self.right,
-        };
-
-        if !res {
-            inner.res.append_null();
-        } else {
-            let v = inner.last_partition;
-            inner.res.append_value(v);
+        if !inner.first {
+            self.append_result(&mut inner);
         }
 
         Ok(inner.res.finish())
diff --git a/src/query/src/physical_plan/segment.rs b/src/query/src/physical_plan/segment.rs
index cebe082..46666c7 100644
--- a/src/query/src/physical_plan/segment.rs
+++ b/src/query/src/physical_plan/segment.rs
@@ -51,7 +51,10 @@ impl SegmentExec {
         expr: Arc<dyn SegmentExpr>,
         partition_col: Column,
     ) -> Result<Self> {
-        let field = Field::new("partition", DataType::Int64, true);
+        // the planner expects the column of the logical node
+        let input_schema = input.schema();
+        let field = input_schema.field_with_name(partition_col.name())?;
+        let field = Field::new(field.name(), DataType::Int64, true);
         let schema = Arc::new(Schema::new(vec![field]));
         let cache = Self::compute_properties(&input, schema.clone())?;
         Ok(Self {
-- 
2.43.0


From 7e057998a6734ee3ba273622807417c828604377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 63/80] fix: aggregates are restricted to their segments and
 leave out filtered users

---
 .../aggregate/partitioned/aggregate.rs        | 12 +++++-----
 .../aggregate/partitioned/count.rs            | 24 +++++++++----------
 src/query/src/physical_plan/planner/mod.rs    |  2 +-
 .../src/physical_plan/segmented_aggregate.rs  | 18 ++++++--------
 4 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index 47cf295..8822044 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -227,6 +227,12 @@ macro_rules! agg {
                         }
                     }
 
+                    if let Some(filter) = &filter {
+                        if !check_filter(filter, row_id) {
+                            continue;
+                        }
+                    }
+
                     let bucket = if let Some(groups) = &mut self.groups {
                         groups
                             .groups
@@ -245,12 +251,6 @@ macro_rules! agg {
                         bucket.last_partition = partition;
                     }
 
-                    if let Some(filter) = &filter {
-                        if !check_filter(filter, row_id) {
-                            continue;
-                        }
-                    }
-
                     if bucket.last_partition != partition {
                         let v = bucket.inner_fn.result();
                         // for float multiply will be 1., which will be optimized in release mode
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
index c6fe58e..fd4a3b1 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
@@ -177,6 +177,12 @@ macro_rules! count {
                         }
                     }
 
+                    if let Some(filter) = &filter {
+                        if !check_filter(filter, row_id) {
+                            continue;
+                        }
+                    }
+
                     let bucket = if let Some(groups) = &mut self.groups {
                         groups
                             .groups
@@ -194,12 +200,6 @@ macro_rules! count {
                         bucket.last_partition = partition;
                     }
 
-                    if let Some(filter) = &filter {
-                        if !check_filter(filter, row_id) {
-                            continue;
-                        }
-                    }
-
                     if bucket.last_partition != partition {
                         let v = bucket.count;
                         bucket.outer_fn.accumulate(v as $acc_ty);
@@ -375,6 +375,12 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
                 }
             }
 
+            if let Some(filter) = &filter {
+                if !check_filter(filter, row_id) {
+                    continue;
+                }
+            }
+
             let bucket = if let Some(groups) = &mut self.groups {
                 groups
                     .groups
@@ -389,12 +395,6 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
                 bucket.last_partition = partition;
             }
 
-            if let Some(filter) = &filter {
-                if !check_filter(filter, row_id) {
-                    continue;
-                }
-            }
-
             if bucket.last_partition != partition {
                 let v = bucket.count;
                 bucket
diff --git a/src/query/src/physical_plan/planner/mod.rs b/src/query/src/physical_plan/planner/mod.rs
index fc205ef..5dce0e7 100644
--- a/src/query/src/physical_plan/planner/mod.rs
+++ b/src/query/src/physical_plan/planner/mod.rs
@@ -220,7 +220,7 @@ impl DFExtensionPlanner for ExtensionPlanner {
             let partition_inputs = node
                 .partition_inputs
                 .clone()
-                .map(|c| physical_inputs[1..c.len()].to_vec());
+                .map(|_| physical_inputs[1..].to_vec());
 
             let partition_col = Column::new(
                 node.partition_col.name.as_str(),
diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index 8cb8e8c..bee37af 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -295,7 +295,6 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
             stream: self.input.execute(partition, context.clone())?,
             segment_streams: RefCell::new(segment_streams),
             schema: self.schema.clone(),
-            partition_col: self.partition_col.clone(),
             named_agg_expr: self.agg_expr.clone(),
             agg_expr: vec![],
             agg_schemas: self.agg_schemas.clone(),
@@ -342,7 +341,6 @@ struct PartialAggregateStream {
     stream: SendableRecordBatchStream,
     segment_streams: RefCell<Vec<SendableRecordBatchStream>>,
     schema: SchemaRef,
-    partition_col: Column,
     named_agg_expr: Vec<NamedAggExpr>,
     #[allow(clippy::type_complexity)]
     agg_expr: Vec<Vec<Arc<Mutex<Box<dyn PartitionedAggregateExpr>>>>>,
@@ -369,7 +367,6 @@ impl Stream for PartialAggregateStream {
         }
 
         if self.stage == Stage::CollectSegments {
-            let partition_col = self.partition_col.clone();
             // collect segments
             {
                 let mut streams = self.segment_streams.borrow_mut();
@@ -377,17 +374,16 @@ impl Stream for PartialAggregateStream {
                     loop {
                         match stream.poll_next_unpin(cx) {
                             Poll::Ready(Some(Ok(batch))) => {
-                                let vals = partition_col
-                                    .evaluate(&batch)?
-                                    .into_array(batch.num_rows())?
+                                // the only column of a segment is its partitions, null
+                                // stands for a partition which isn't in the segment
+                                let vals = batch
+                                    .column(0)
                                     .as_any()
                                     .downcast_ref::<Int64Array>()
-                                    .unwrap()
-                                    .clone();
+                                    .unwrap();
 
-                                for val in vals.iter() {
-                                    self.segment_partitions.borrow_mut()[id]
-                                        .insert(val.unwrap(), ());
+                                for val in vals.iter().flatten() {
+                                    self.segment_partitions.borrow_mut()[id].insert(val, ());
                                 }
                             }
                             Poll::Ready(None) => break,
-- 
2.43.0


From a81a0e190d435fd7da8890200d1922e5642c893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 64/80] fix: funnels don't depend on batches, count a unique
 user once and end attempts with their user

---
 src/query/src/lib.rs                          |   4 +-
 .../aggregate/partitioned/funnel/funnel.rs    | 337 ++++++++----------
 .../aggregate/partitioned/funnel/mod.rs       |  58 ++-
 3 files changed, 173 insertions(+), 226 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index db4cd17..7ee0e7e 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -162,7 +162,7 @@ macro_rules! impl_into_static_array {
         impl StaticArray {
     fn eq_values(&self, left_row_id: usize, right:&StaticArray,right_row_id: usize) -> bool {
         match (self,right) {
-             $((StaticArray::$ident(a),StaticArray::$ident(b))=>a.value(left_row_id) == b.value(right_row_id)),+,
+             $((StaticArray::$ident(a),StaticArray::$ident(b))=>a.is_null(left_row_id) == b.is_null(right_row_id) && (a.is_null(left_row_id) || a.value(left_row_id) == b.value(right_row_id))),+,
             _=>unreachable!()
         }
         }
@@ -172,7 +172,7 @@ macro_rules! impl_into_static_array {
 
 impl_into_static_array!( Int8 Int16 Int32 Int64 Int128 UInt8 UInt16 UInt32 UInt64 Float16 Float32 Float64 Boolean
     TimestampNanosecond TimestampMicrosecond TimestampMillisecond  Time32Second Time32Millisecond  Time64Microsecond Time64Nanosecond DurationSecond DurationMillisecond DurationMicrosecond IntervalYearMonth IntervalDayTime IntervalMonthDayNano Date32 Date64 DurationNanosecond
-    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString);
+    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString Decimal128 Decimal256);
 
 impl From<ArrayRef> for StaticArray {
     fn from(arr: ArrayRef) -> Self {
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 5385def..750de25 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -3,6 +3,7 @@ use std::result;
 use std::sync::Arc;
 
 use ahash::RandomState;
+use arrow::array::Array;
 use arrow::array::ArrayRef;
 use arrow::array::Decimal128Builder;
 use arrow::array::Int64Array;
@@ -31,7 +32,6 @@ use num_traits::ToPrimitive;
 use rust_decimal::Decimal;
 
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::evaluate_batch;
-use crate::physical_plan::expressions::aggregate::partitioned::funnel::Batch;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::Count;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::Exclude;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::ExcludeExpr;
@@ -62,9 +62,10 @@ struct Step {
 }
 
 #[derive(Debug)]
-struct Row {
+struct ConstRow {
     row_id: usize,
-    _batch_id: usize,
+    // constants of the batch the row is in
+    constants: Vec<StaticArray>,
 }
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -81,19 +82,34 @@ struct BucketResult {
     ts: i64,
 }
 
+impl BucketResult {
+    fn new(steps_len: usize, ts: i64) -> Self {
+        Self {
+            steps: (0..steps_len)
+                .map(|_| StepResult {
+                    total: 0,
+                    dropped_off: 0,
+                    total_time_to_convert: 0,
+                    total_time_to_convert_from_start: 0,
+                })
+                .collect::<Vec<_>>(),
+            ts,
+        }
+    }
+}
+
 #[derive(Debug)]
 struct Group {
     skip: bool,
     first: bool,
     cur_partition: i64,
-    _cur_row_id: i64,
-    partition_start: Row,
-    _partition_len: i64,
-    const_row: Option<Row>,
+    const_row: Option<ConstRow>,
     cur_step: usize,
     steps: Vec<Step>,
     buckets: HashMap<i64, BucketResult, RandomState>,
     steps_completed: usize,
+    // step times of the attempt that got furthest in current partition
+    best: Vec<i64>,
 }
 
 impl Group {
@@ -102,18 +118,7 @@ impl Group {
         let buckets = ts
             .iter()
             .map(|ts| {
-                let b = BucketResult {
-                    steps: (0..steps_len)
-                        .map(|_| StepResult {
-                            total: 0,
-                            dropped_off: 0,
-                            total_time_to_convert: 0,
-                            total_time_to_convert_from_start: 0,
-                        })
-                        .collect::<Vec<_>>(),
-                    ts: *ts,
-                };
-                (*ts, b)
+                (*ts, BucketResult::new(steps_len, *ts))
             })
             .collect::<HashMap<_, _, RandomState>>();
 
@@ -121,12 +126,6 @@ impl Group {
             skip: false,
             first: true,
             cur_partition: 0,
-            _cur_row_id: 0,
-            partition_start: Row {
-                row_id: 0,
-                _batch_id: 0,
-            },
-            _partition_len: 0,
             const_row: None,
             cur_step: 0,
             steps: (0..steps_len)
@@ -138,23 +137,17 @@ impl Group {
                 .collect::<Vec<_>>(),
             buckets,
             steps_completed: 0,
+            best: vec![],
         }
     }
 
-    #[allow(unused_assignments)]
     fn check_exclude(&self, exclude: &[Exclude], cur_row_id: usize) -> bool {
         for excl in exclude.iter() {
-            let mut to_check = false;
             // check if this exclude is relevant to current step
-            if let Some(steps) = &excl.steps {
-                if steps.from <= self.cur_step && steps.to >= self.cur_step {
-                    to_check = true;
-                    break;
-                }
-            } else {
-                // check anyway
-                to_check = true;
-            }
+            let to_check = match &excl.steps {
+                Some(steps) => steps.from <= self.cur_step && steps.to >= self.cur_step,
+                None => true,
+            };
 
             if to_check && excl.exists.value(cur_row_id) {
                 return false;
@@ -166,9 +159,8 @@ impl Group {
 
     fn check_constants(&self, constants: &[StaticArray], cur_row_id: usize) -> bool {
         let const_row = self.const_row.as_ref().unwrap();
-        for (const_idx, first_const) in constants.iter().enumerate() {
+        for (first_const, cur_const) in const_row.constants.iter().zip(constants.iter()) {
             // compare the const values of current row and first row
-            let cur_const = &constants[const_idx];
             if !first_const.eq_values(const_row.row_id, cur_const, cur_row_id) {
                 return false;
             }
@@ -177,17 +169,13 @@ impl Group {
         true
     }
 
-    pub fn push_result(
-        &mut self,
-        filter: &Option<Filter>,
-        time_unit: &Option<TimeIntervalUnit>,
-    ) -> bool {
+    fn is_completed(&self, filter: &Option<Filter>) -> bool {
         if self.steps_completed == 0 {
             return false;
         }
         let steps_count = self.steps.len();
         let steps_completed = self.steps_completed;
-        let is_completed = match filter {
+        match filter {
             // if no filter, then funnel is completed id all steps are completed
             None => steps_completed == steps_count,
             Some(filter) => match filter {
@@ -204,35 +192,77 @@ impl Group {
                     }
                 }
             },
-        };
+        }
+    }
+
+    /// the current attempt is over, whether completed or not
+    fn end_attempt(
+        &mut self,
+        count: &Count,
+        filter: &Option<Filter>,
+        time_unit: &Option<TimeIntervalUnit>,
+    ) {
+        let is_completed = self.is_completed(filter);
+        let times = self.steps[..self.steps_completed]
+            .iter()
+            .map(|s| s.ts)
+            .collect::<Vec<_>>();
+        self.cur_step = 0;
+        self.steps_completed = 0;
+        if *count == Count::Unique {
+            // a partition counts once, with the attempt that got furthest
+            if times.len() > self.best.len() {
+                self.best = times;
+            }
+            self.skip |= is_completed;
+        } else {
+            self.push_result(&times, time_unit);
+        }
+    }
+
+    /// there are no more rows of current partition
+    fn end_partition(
+        &mut self,
+        count: &Count,
+        filter: &Option<Filter>,
+        time_unit: &Option<TimeIntervalUnit>,
+    ) {
+        self.end_attempt(count, filter, time_unit);
+        let best = std::mem::take(&mut self.best);
+        self.push_result(&best, time_unit);
+        self.skip = false;
+    }
+
+    /// counts an attempt that completed its steps at given times
+    fn push_result(&mut self, times: &[i64], time_unit: &Option<TimeIntervalUnit>) {
+        if times.is_empty() {
+            return;
+        }
+        let steps_count = self.steps.len();
         let k = if let Some(time_unit) = time_unit {
-            let dt = chrono::DateTime::from_timestamp_millis(self.steps[0].ts).unwrap();
+            let dt = chrono::DateTime::from_timestamp_millis(times[0]).unwrap();
             let ts = date_trunc(time_unit, dt).unwrap();
             ts.timestamp_millis()
         } else {
             *self.buckets.iter().next().unwrap().0
         };
 
-        // increment counters in bucket. Assume that bucket exist
-        self.buckets.entry(k).and_modify(|b| {
-            for idx in 0..self.steps_completed {
-                b.steps[idx].total += 1;
-                if idx > 0 {
-                    b.steps[idx].total_time_to_convert +=
-                        self.steps[idx].ts - self.steps[idx - 1].ts;
-                    b.steps[idx].total_time_to_convert_from_start +=
-                        self.steps[idx].ts - self.steps[0].ts;
-
-                    b.steps[idx].dropped_off = b.steps[idx - 1].total - b.steps[idx].total;
-                }
-            }
-
-            for idx in 1..self.steps.len() {
-                b.steps[idx].dropped_off = b.steps[idx - 1].total - b.steps[idx].total;
+        // increment counters in bucket
+        let b = self
+            .buckets
+            .entry(k)
+            .or_insert_with(|| BucketResult::new(steps_count, k));
+        for (idx, ts) in times.iter().enumerate() {
+            b.steps[idx].total += 1;
+            if idx > 0 {
+                b.steps[idx].total_time_to_convert += ts - times[idx - 1];
+                b.steps[idx].total_time_to_convert_from_start += ts - times[0];
             }
-        });
+        }
 
-        is_completed
+        for idx in 1..steps_count {
+            b.steps[idx].dropped_off = b.steps[idx - 1].total - b.steps[idx].total;
+        }
     }
 }
 
@@ -269,7 +299,6 @@ pub struct Funnel {
     filter: Option<Filter>,
     touch: Option<Touch>,
     partition_col: PhysicalExprRef,
-    buf: HashMap<usize, Batch, RandomState>,
     batch_id: usize,
     _processed_batches: usize,
     #[cfg(test)]
@@ -278,9 +307,6 @@ pub struct Funnel {
     time_interval: Option<TimeIntervalUnit>,
     // groups when group by
     groups: Option<Groups<Group>>,
-    cur_partition: i64,
-    skip_partition: bool,
-    first: bool,
     // special case for non-group
     single_group: Group,
     steps_len: usize,
@@ -347,7 +373,6 @@ impl Funnel {
             filter: opts.filter,
             touch: opts.touch,
             partition_col: opts.partition_col,
-            buf: Default::default(),
             batch_id: 0,
             _processed_batches: 0,
             #[cfg(test)]
@@ -355,9 +380,6 @@ impl Funnel {
             buckets: buckets.clone(),
             time_interval: opts.time_interval.clone(),
             groups: Groups::maybe_from(opts.groups)?,
-            cur_partition: 0,
-            skip_partition: false,
-            first: true,
             single_group: Group::new(opts.steps.len(), &buckets),
             steps_len: opts.steps.len(),
         })
@@ -467,7 +489,6 @@ impl Funnel {
             &self.ts_col,
             &self.partition_col,
         )?;
-        self.buf.insert(self.batch_id, funnel_batch);
         let partitions = self
             .partition_col
             .evaluate(batch)?
@@ -490,32 +511,15 @@ impl Funnel {
         } else {
             None
         };
-        let mut to_remove = Vec::with_capacity(self.buf.len() - 1);
-        for (idx, batch) in &self.buf {
-            if batch.first_partition < self.cur_partition {
-                to_remove.push(idx.to_owned())
-            }
-        }
-
-        for idx in to_remove {
-            self.buf.remove(&idx);
-        }
-        let mut row_id = 0;
-        let mut batch_id = self.batch_id;
-        loop {
-            if self.skip_partition {
-                while self.cur_partition == partitions.value(row_id)
-                    && row_id < batch.num_rows() - 1
-                {
-                    row_id += 1;
-                }
-                self.skip_partition = false;
+        let batch_id = self.batch_id;
+        for row_id in 0..batch.num_rows() {
+            if partitions.is_null(row_id) {
+                continue;
             }
+            let partition = partitions.value(row_id);
             if let Some(exists) = partition_exist {
-                while !exists.contains_key(&partitions.value(row_id))
-                    && row_id < batch.num_rows() - 1
-                {
-                    row_id += 1;
+                if !exists.contains_key(&partition) {
+                    continue;
                 }
             }
             let group = if let Some(groups) = &mut self.groups {
@@ -526,100 +530,68 @@ impl Funnel {
             } else {
                 &mut self.single_group
             };
-            if self.first {
-                self.cur_partition = partitions.value(row_id);
+            #[cfg(test)]
+            if row_id > 0 {
+                self.debug.push(batch_id, row_id, DebugStep::NextRow);
             }
 
-            if group.first {
+            if group.first || partition != group.cur_partition {
+                // a funnel never goes on with rows of another partition
+                group.end_partition(&self.count, &self.filter, &self.time_interval);
+                #[cfg(test)]
+                if !group.first {
+                    self.debug.push(batch_id, row_id, DebugStep::NewPartition);
+                }
                 group.first = false;
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_partition = partitions.value(row_id);
+                group.cur_partition = partition;
+            }
+            // unique funnel is completed, skip the rest of the partition
+            if group.skip {
+                continue;
             }
 
-            let batch = self.buf.get(&batch_id).unwrap();
-            let cur_ts = batch.ts.value(row_id);
+            let cur_ts = funnel_batch.ts.value(row_id);
+            if group.cur_step > 0 && cur_ts - group.steps[0].ts > self.window.num_milliseconds() {
+                group.end_attempt(&self.count, &self.filter, &self.time_interval);
+                #[cfg(test)]
+                self.debug.push(batch_id, row_id, DebugStep::OutOfWindow);
+                // don't continue, this row may be the first step
+            }
             if group.cur_step > 0 {
-                if let Some(exclude) = &batch.exclude {
+                if let Some(exclude) = &funnel_batch.exclude {
                     if !group.check_exclude(exclude, row_id) {
                         #[cfg(test)]
                         self.debug
                             .push(batch_id, row_id, DebugStep::ExcludeViolation);
-                        group.steps[0] = group.steps[group.cur_step].clone();
                         group.cur_step = 0;
                         group.steps_completed = 0;
-
-                        // continue, so this row will be processed twice, possible first step as well
-                        continue;
+                        // don't continue, this row may be the first step
                     }
                 }
-
-                if cur_ts - group.steps[0].ts > self.window.num_milliseconds() {
-                    group.push_result(&self.filter, &self.time_interval);
+            }
+            if let Some(constants) = &funnel_batch.constants {
+                // compare current value with constant
+                if group.cur_step > 0 && !group.check_constants(constants, row_id) {
                     #[cfg(test)]
-                    self.debug.push(batch_id, row_id, DebugStep::OutOfWindow);
-                    group.steps[0] = group.steps[group.cur_step].clone();
+                    self.debug
+                        .push(batch_id, row_id, DebugStep::ConstantViolation);
                     group.cur_step = 0;
                     group.steps_completed = 0;
-                    // don't continue
                 }
-            }
-            if group.cur_step == 0 {
-                if batch.constants.is_some() {
-                    group.const_row = Some(Row {
+                if group.cur_step == 0 {
+                    group.const_row = Some(ConstRow {
                         row_id,
-                        _batch_id: batch_id,
+                        constants: constants.clone(),
                     })
                 }
-            } else {
-                // compare current value with constant
-                // get constant row
-                if let Some(constants) = &batch.constants {
-                    if !group.check_constants(constants, row_id) {
-                        #[cfg(test)]
-                        self.debug
-                            .push(batch_id, row_id, DebugStep::ConstantViolation);
-                        group.steps[0] = group.steps[group.cur_step].clone();
-                        group.cur_step = 0;
-                        group.steps_completed = 0;
-
-                        continue;
-                    }
-                }
             }
 
-            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
-                group.push_result(&self.filter, &self.time_interval);
-                #[cfg(test)]
-                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
-                group.cur_partition = partitions.value(row_id);
-                self.cur_partition = partitions.value(row_id);
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_step = 0;
-                group.skip = false;
-                group.steps_completed = 0;
-            }
-            let mut matched = false;
-            match &self.steps_orders[group.cur_step] {
-                StepOrder::Exact => {
-                    matched = batch.steps[group.cur_step].value(row_id);
-                }
-                StepOrder::Any(pairs) => {
-                    for (from, to) in pairs {
-                        for step in *from..=*to {
-                            matched = batch.steps[step].value(row_id);
-                            if matched {
-                                break;
-                            }
-                        }
-                    }
-                }
-            }
+            let matched = match &self.steps_orders[group.cur_step] {
+                StepOrder::Exact => funnel_batch.steps[group.cur_step].value(row_id),
+                StepOrder::Any(pairs) => pairs
+                    .iter()
+                    .any(|(from, to)| (*from..=*to).any(|s| funnel_batch.steps[s].value(row_id))),
+            };
             if matched {
                 group.steps_completed += 1;
 
@@ -634,24 +606,9 @@ impl Funnel {
                     #[cfg(test)]
                     self.debug.push(batch_id, row_id, DebugStep::Complete);
 
-                    let is_completed = group.push_result(&self.filter, &self.time_interval);
-                    if is_completed && self.count == Count::Unique {
-                        self.skip_partition = true;
-                    }
-                    group.cur_step = 0;
-                    group.steps_completed = 0;
+                    group.end_attempt(&self.count, &self.filter, &self.time_interval);
                 }
             }
-            row_id += 1;
-            if row_id >= batch.len() {
-                batch_id += 1;
-                row_id = 0;
-                if batch_id > self.batch_id {
-                    break;
-                }
-            }
-            #[cfg(test)]
-            self.debug.push(batch_id, row_id, DebugStep::NextRow);
         }
 
         self.batch_id += 1;
@@ -678,7 +635,6 @@ impl Funnel {
             filter: self.filter.clone(),
             touch: self.touch.clone(),
             partition_col: self.partition_col.clone(),
-            buf: Default::default(),
             batch_id: 0,
             _processed_batches: 0,
             #[cfg(test)]
@@ -686,9 +642,6 @@ impl Funnel {
             buckets: self.buckets.clone(),
             time_interval: self.time_interval.clone(),
             groups,
-            cur_partition: 0,
-            skip_partition: false,
-            first: true,
             single_group: Group::new(self.steps_len, &self.buckets),
             steps_len: self.steps_len,
         };
@@ -702,7 +655,7 @@ impl Funnel {
             let mut rows: Vec<arrow_row::Row> = Vec::with_capacity(groups.groups.len());
             for (row, group) in &mut groups.groups {
                 rows.push(row.row());
-                group.push_result(&self.filter, &self.time_interval);
+                group.end_partition(&self.count, &self.filter, &self.time_interval);
             }
             let group_arrs = groups.row_converter.convert_rows(rows)?;
 
@@ -715,7 +668,7 @@ impl Funnel {
             (Some(group_arrs), buckets)
         } else {
             self.single_group
-                .push_result(&self.filter, &self.time_interval);
+                .end_partition(&self.count, &self.filter, &self.time_interval);
             (None, vec![&self.single_group.buckets])
         };
 
@@ -791,7 +744,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert as f64 / step.total as f64
                         } else {
                             0.
                         })
@@ -804,7 +757,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert_from_start as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert_from_start as f64 / step.total as f64
                         } else {
                             0.
                         })
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
index 6d00086..34167c4 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
@@ -1,8 +1,10 @@
 use std::sync::Arc;
 
+use arrow::array::Array;
 use arrow::array::BooleanArray;
 use arrow::array::Int64Array;
 use arrow::array::TimestampMillisecondArray;
+use arrow::compute::prep_null_mask_filter;
 use arrow::datatypes::Schema;
 use arrow::record_batch::RecordBatch;
 use chrono::Duration;
@@ -111,6 +113,22 @@ impl Batch {
     }
 }
 
+// evaluate expr to bool result, unknown is false
+fn evaluate_bool(expr: &PhysicalExprRef, batch: &RecordBatch) -> Result<BooleanArray> {
+    let arr = expr
+        .evaluate(batch)?
+        .into_array(batch.num_rows())?
+        .as_any()
+        .downcast_ref::<BooleanArray>()
+        .unwrap()
+        .clone();
+    if arr.null_count() > 0 {
+        Ok(prep_null_mask_filter(&arr))
+    } else {
+        Ok(arr)
+    }
+}
+
 // calculate expressions
 fn evaluate_batch(
     batch: RecordBatch,
@@ -123,49 +141,25 @@ fn evaluate_batch(
     let mut steps = vec![];
     // evaluate steps
     for expr in steps_expr.iter() {
-        // evaluate expr to bool result
-        let arr = expr
-            .evaluate(&batch)?
-            .into_array(0)?
-            .as_any()
-            .downcast_ref::<BooleanArray>()
-            .unwrap()
-            .clone();
         // add steps to state
-        steps.push(arr);
+        steps.push(evaluate_bool(expr, &batch)?);
     }
     // evaluate exclude
-    let mut exclude = Some(vec![]);
+    let mut exclude = vec![];
     if let Some(exprs) = &exclude_expr {
         for expr in exprs.iter() {
-            let arr = expr
-                .expr
-                .evaluate(&batch)?
-                .into_array(0)?
-                .as_any()
-                .downcast_ref::<BooleanArray>()
-                .unwrap()
-                .clone();
-            if let Some(exclude) = &mut exclude {
-                let excl = Exclude {
-                    exists: arr,
-                    steps: expr.steps.clone(),
-                };
-                exclude.push(excl);
-            } else {
-                let excl = Exclude {
-                    exists: arr,
-                    steps: expr.steps.clone(),
-                };
-                exclude = Some(vec![excl]);
-            }
+            exclude.push(Exclude {
+                exists: evaluate_bool(&expr.expr, &batch)?,
+                steps: expr.steps.clone(),
+            });
         }
     }
+    let exclude = Some(exclude);
     // prepare constants
     let mut constants_out: Option<Vec<_>> = None;
     if let Some(cc) = constants {
         for c in cc.iter() {
-            let arr = c.evaluate(&batch)?.into_array(0)?;
+            let arr = c.evaluate(&batch)?.into_array(batch.num_rows())?;
             let arr = StaticArray::from(arr);
             if let Some(c) = &mut constants_out {
                 c.push(arr)
-- 
2.43.0


From fa04922af2808bc3f92de4ec40f1b0509c14e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 65/80] fix: ratios and averages of a funnel are taken from all
 partitions

---
 src/query/src/physical_plan/funnel.rs | 71 +++++++++++++++++++++------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/query/src/physical_plan/funnel.rs b/src/query/src/physical_plan/funnel.rs
index 0db852a..54b5e90 100644
--- a/src/query/src/physical_plan/funnel.rs
+++ b/src/query/src/physical_plan/funnel.rs
@@ -61,14 +61,12 @@ use crate::physical_plan::expressions::aggregate::partitioned::funnel::funnel::F
 #[derive(Debug, Clone)]
 enum Agg {
     Sum(i128),
-    Avg(i128, i128),
 }
 
 impl Agg {
     pub fn result(&self) -> i128 {
         match self {
             Agg::Sum(sum) => *sum,
-            Agg::Avg(sum, count) => *sum / *count,
         }
     }
 }
@@ -188,19 +186,11 @@ fn aggregate(
                     Agg::Sum(sum) => {
                         *sum += arr.value(row_id) as i128;
                     }
-                    Agg::Avg(sum, count) => {
-                        *sum += arr.value(row_id) as i128;
-                        *count += 1;
-                    }
                 },
                 StaticArray::Decimal(arr) => match agg {
                     Agg::Sum(sum) => {
                         *sum += arr.value(row_id);
                     }
-                    Agg::Avg(sum, count) => {
-                        *sum += arr.value(row_id);
-                        *count += 1;
-                    }
                 },
             }
         }
@@ -265,6 +255,53 @@ fn aggregate(
     Ok(cols)
 }
 
+/// calculates ratios and averages of steps from their totals
+fn ratios(cols: &mut [ArrayRef], first: usize, steps: usize) -> Result<()> {
+    const STEP_COLS: usize = 8;
+    let int_col = |cols: &[ArrayRef], idx: usize| {
+        cols[idx]
+            .as_any()
+            .downcast_ref::<Int64Array>()
+            .unwrap()
+            .to_owned()
+    };
+    let unit = 10i128.pow(DECIMAL_SCALE as u32);
+    let ratio = |num: i64, den: i64, mul: i128| {
+        if den > 0 {
+            num as i128 * mul * unit / den as i128
+        } else {
+            0
+        }
+    };
+    let start = int_col(cols, first);
+    for step in 0..steps {
+        let idx = first + step * STEP_COLS;
+        let total = int_col(cols, idx);
+        let time = int_col(cols, idx + 6);
+        let time_from_start = int_col(cols, idx + 7);
+        let rows = 0..total.len();
+        let conversion = rows
+            .clone()
+            .map(|i| ratio(total.value(i), start.value(i), 100))
+            .collect::<Vec<_>>();
+        let drop_off = conversion.iter().map(|v| 100 * unit - v).collect::<Vec<_>>();
+        let avg = rows
+            .clone()
+            .map(|i| ratio(time.value(i), total.value(i), 1))
+            .collect::<Vec<_>>();
+        let avg_from_start = rows
+            .map(|i| ratio(time_from_start.value(i), total.value(i), 1))
+            .collect::<Vec<_>>();
+        for (pos, vals) in [(1, conversion), (2, avg), (3, avg_from_start), (5, drop_off)] {
+            cols[idx + pos] = Arc::new(
+                Decimal128Array::from(vals)
+                    .with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE)?,
+            ) as ArrayRef;
+        }
+    }
+    Ok(())
+}
+
 #[derive(Eq, PartialEq, Clone, Debug)]
 enum Stage {
     CollectSegments,
@@ -690,20 +727,22 @@ impl Stream for FinalFunnelStream {
             let cname = format!("step{}_total", i);
             aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
 
+            // ratios and averages of partitions say nothing about the whole, they are calculated
+            // from sums below
             let cname = format!("step{}_conversion_ratio", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
+            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
 
             let cname = format!("step{}_avg_time_to_convert", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
+            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
 
             let cname = format!("step{}_avg_time_to_convert_from_start", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
+            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
 
             let cname = format!("step{}_dropped_off", i);
             aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
 
             let cname = format!("step{}_drop_off_ratio", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
+            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
 
             let cname = format!("step{}_time_to_convert", i);
             aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
@@ -724,7 +763,9 @@ impl Stream for FinalFunnelStream {
             .collect::<Vec<_>>();
 
         let final_batch = concat_batches(&self.schema, &self.final_batches.borrow().to_vec())?;
-        let agg_arrs = aggregate(&final_batch, groups, aggs)
+        let mut agg_arrs = aggregate(&final_batch, groups, aggs)
+            .map_err(QueryError::into_datafusion_execution_error)?;
+        ratios(&mut agg_arrs, self.groups + 2, self.steps)
             .map_err(QueryError::into_datafusion_execution_error)?;
         let result = RecordBatch::try_new(self.schema.clone(), agg_arrs)?;
         self.finished = true;
-- 
2.43.0


From 45b258dd962913d24811406943d5789980df813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 66/80] fix: funnels are restricted to their project and decode
 the filters of excluded events

---
 src/query/src/funnel.rs | 62 ++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 7a0757e..d4f9f91 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -196,7 +196,12 @@ impl FunnelProvider {
             let name = match &step.events[0].event {
                 EventRef::RegularName(n) => n.clone(),
                 EventRef::Regular(id) => self.metadata.events.get_by_id(ctx.project_id, *id)?.name,
-                EventRef::Custom(_) => unimplemented!(),
+                EventRef::Custom(id) => {
+                    self.metadata
+                        .custom_events
+                        .get_by_id(ctx.project_id, *id)?
+                        .name
+                }
             };
             let mut step = Step {
                 step: name.clone(),
@@ -257,6 +262,9 @@ pub fn build(
     req: Funnel,
 ) -> Result<LogicalPlan> {
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
+    // events of other projects don't belong to the funnel, and their keys are unknown to the
+    // dictionaries
+    let input = project_plan(&ctx, COLUMN_PROJECT_ID, input)?;
     let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
@@ -450,6 +458,18 @@ fn decode_filter_dictionaries(
         }
     }
 
+    for exclude in funnel.exclude.iter().flatten() {
+        for filter in event_filters(ctx, metadata, &exclude.event, exclude.filters.as_ref())? {
+            decode_filter_single_dictionary(
+                ctx,
+                metadata,
+                cols_hash,
+                &mut decode_cols,
+                &filter,
+            )?;
+        }
+    }
+
     if let Some(filters) = &funnel.filters {
         for filter in filters {
             decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
@@ -458,9 +478,7 @@ fn decode_filter_dictionaries(
     if decode_cols.is_empty() {
         return Ok(input);
     }
-    // keys of other projects are unknown to the dictionaries
-    let input = project_plan(ctx, COLUMN_PROJECT_ID, input)?;
-Ok(LogicalPlan::Extension(Extension {
+    Ok(LogicalPlan::Extension(Extension {
         node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
     }))
 }
@@ -519,12 +537,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     if let Some(exclude) = &req.exclude {
         for e in exclude {
-            if let Some(filters) = &e.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in event_filters(ctx, md, &e.event, e.filters.as_ref())? {
+                match &filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, property, md)?)
                     }
                 }
             }
@@ -563,9 +579,16 @@ pub fn fix_request(
     for (step_id, step) in req.steps.iter().enumerate() {
         for (event_id, event) in step.events.iter().enumerate() {
             if let Some(filters) = &event.filters {
-                if filters.is_empty() {
-                    out.steps[step_id].events[event_id].filters = None;
-                }
+                out.steps[step_id].events[event_id].filters = if filters.is_empty() {
+                    None
+                } else {
+                    Some(
+                        filters
+                            .iter()
+                            .map(|f| fix_filter(md, project_id, f))
+                            .collect::<Result<Vec<_>>>()?,
+                    )
+                };
             }
         }
     }
@@ -577,9 +600,16 @@ pub fn fix_request(
             let mut out_exclude = exclude.to_vec();
             for (exclude_id, exclude) in exclude.iter().enumerate() {
                 if let Some(filters) = &exclude.filters {
-                    if filters.is_empty() {
-                        out_exclude[exclude_id].filters = None;
-                    }
+                    out_exclude[exclude_id].filters = if filters.is_empty() {
+                        None
+                    } else {
+                        Some(
+                            filters
+                                .iter()
+                                .map(|f| fix_filter(md, project_id, f))
+                                .collect::<Result<Vec<_>>>()?,
+                        )
+                    };
                 }
             }
 
-- 
2.43.0


From 1b5925de3fb5cf8e4df2195a76b7d092d25569fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 67/80] fix: steps of an exclusion are counted from one both
 ways and out of range ones are refused

---
 src/platform/src/funnel.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 5a64fe5..2f16301 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -200,12 +200,13 @@ pub(crate) fn validate_request(
             match &exclude.steps {
                 Some(steps) => match steps {
                     ExcludeSteps::Between { from, to } => {
-                        if *from >= req.steps.len() {
+                        // steps are counted from one here
+                        if *from < 1 || *from > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: from step index out of range".to_string(),
                             ));
                         }
-                        if *to >= req.steps.len() {
+                        if *to < 1 || *to > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: to step index out of range".to_string(),
                             ));
@@ -499,7 +500,10 @@ impl Into<common::funnel::ExcludeSteps> for ExcludeSteps {
         match self {
             ExcludeSteps::All => common::funnel::ExcludeSteps::All,
             ExcludeSteps::Between { from, to } => {
-                common::funnel::ExcludeSteps::Between(from - 1, to - 1)
+                common::funnel::ExcludeSteps::Between(
+                    from.saturating_sub(1),
+                    to.saturating_sub(1),
+                )
             }
         }
     }
@@ -510,7 +514,10 @@ impl Into<ExcludeSteps> for common::funnel::ExcludeSteps {
     fn into(self) -> ExcludeSteps {
         match self {
             common::funnel::ExcludeSteps::All => ExcludeSteps::All,
-            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between { from, to },
+            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between {
+                from: from + 1,
+                to: to + 1,
+            },
         }
     }
 }
-- 
2.43.0


From 4a358581b8530551f3e53ceef01c1848a0371727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 68/80] fix: funnels compare decimals, and can be broken down
 by texts and by missing numbers

---
 src/query/src/funnel.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index d4f9f91..3663b0c 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -31,9 +31,14 @@ use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::ROUND_DIGITS;
 use common::types::TABLE_EVENTS;
 use common::DECIMAL_SCALE;
+use datafusion::optimizer::simplify_expressions::ExprSimplifier;
 use datafusion_common::Column;
+use datafusion_common::DFSchemaRef;
+use datafusion_expr::execution_props::ExecutionProps;
+use datafusion_expr::simplify::SimplifyContext;
 use datafusion_expr::and;
 use datafusion_expr::col;
+use datafusion_expr::Expr;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter as PlanFilter;
 use datafusion_expr::LogicalPlan;
@@ -141,6 +146,10 @@ impl FunnelProvider {
                             .unwrap();
                         let mut builder = StringBuilder::new();
                         for i in 0..arr.len() {
+                            if arr.is_null(i) {
+                                builder.append_null();
+                                continue;
+                            }
                             let v = arr.value(i);
                             let vv = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
                                 .round_dp(ROUND_DIGITS.into());
@@ -255,6 +264,14 @@ impl FunnelProvider {
     }
 }
 
+/// expressions of a funnel are its own, so that analyzers don't coerce them
+fn coerce(expr: Expr, schema: &DFSchemaRef) -> Result<Expr> {
+    let props = ExecutionProps::new();
+    let info = SimplifyContext::new(&props).with_schema(schema.clone());
+
+    Ok(ExprSimplifier::new(info).coerce(expr, schema)?)
+}
+
 pub fn build(
     ctx: Context,
     metadata: Arc<MetadataProvider>,
@@ -294,7 +311,7 @@ pub fn build(
                 StepOrder::Exact => logical_plan::funnel::StepOrder::Exact,
                 StepOrder::Any(order) => logical_plan::funnel::StepOrder::Any(order.to_vec()),
             };
-            steps.push((multi_or(exprs), order))
+            steps.push((coerce(multi_or(exprs), input.schema())?, order))
         }
 
         steps
@@ -323,6 +340,7 @@ pub fn build(
                 None
             };
 
+            let expr = coerce(expr, input.schema())?;
             out.push(logical_plan::funnel::ExcludeExpr { expr, steps });
         }
 
@@ -371,8 +389,12 @@ pub fn build(
                 relation: None,
                 name: prop.column_name(),
             });
+            // values may have been decoded already
+            let field = input
+                .schema()
+                .field_with_unqualified_name(prop.column_name().as_str())?;
             out.push((expr, prop.column_name(), SortField {
-                data_type: prop.data_type(),
+                data_type: field.data_type().to_owned(),
             }))
         }
         Some(out)
-- 
2.43.0


From c7f1794f1857f98603b3a96d56f4d31e774a8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 69/80] fix: changing a report changes its type

---
 src/metadata/src/reports.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index 7e9d3ba..384dfad 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -142,6 +142,9 @@ impl Reports {
         if let OptionalProperty::Some(tags) = req.tags {
             report.tags = tags;
         }
+        if let OptionalProperty::Some(typ) = req.typ {
+            report.typ = typ;
+        }
         if let OptionalProperty::Some(query) = req.query {
             report.query = query;
         }
-- 
2.43.0


From 9ba7ca24721e588ed3a06f3cab149be5b1014049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 70/80] fix: an empty list of filter groups is no filter

---
 src/platform/src/event_records.rs      |  2 +-
 src/platform/src/event_segmentation.rs |  2 +-
 src/platform/src/funnel.rs             | 19 ++++++++++---------
 src/platform/src/group_records.rs      |  2 +-
 4 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 4eed8b4..74915db 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -177,7 +177,7 @@ impl Into<event_records::EventRecordsSearchRequest> for EventRecordsSearchReques
             filters: self.filters.map_or_else(
                 || None,
                 |v| {
-                    if v.groups[0].filters.is_empty() {
+                    if v.groups.is_empty() || v.groups[0].filters.is_empty() {
                         None
                     } else {
                         Some(
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 095dfd0..acf3e00 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -467,7 +467,7 @@ impl Into<common::event_segmentation::EventSegmentationRequest> for EventSegment
             filters: self.filters.map_or_else(
                 || None,
                 |v| {
-                    if v.groups[0].filters.is_empty() {
+                    if v.groups.is_empty() || v.groups[0].filters.is_empty() {
                         None
                     } else {
                         Some(
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 2f16301..8b1beb2 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -500,10 +500,7 @@ impl Into<common::funnel::ExcludeSteps> for ExcludeSteps {
         match self {
             ExcludeSteps::All => common::funnel::ExcludeSteps::All,
             ExcludeSteps::Between { from, to } => {
-                common::funnel::ExcludeSteps::Between(
-                    from.saturating_sub(1),
-                    to.saturating_sub(1),
-                )
+                common::funnel::ExcludeSteps::Between(from.saturating_sub(1), to.saturating_sub(1))
             }
         }
     }
@@ -753,11 +750,15 @@ impl Into<common::funnel::Funnel> for FunnelRequest {
                 .segments
                 .map(|s| s.iter().map(|s| s.to_owned().into()).collect::<Vec<_>>()),
             filters: self.filters.map(|v| {
-                v.groups[0]
-                    .filters
-                    .iter()
-                    .map(|f| f.to_owned().into())
-                    .collect::<Vec<_>>()
+                v.groups
+                    .first()
+                    .map(|g| {
+                        g.filters
+                            .iter()
+                            .map(|f| f.to_owned().into())
+                            .collect::<Vec<_>>()
+                    })
+                    .unwrap_or_default()
             }),
         }
     }
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 4b3ddc2..f368ef8 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -116,7 +116,7 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
             filters: self.filters.map_or_else(
                 || None,
                 |v| {
-                    if v.groups[0].filters.is_empty() {
+                    if v.groups.is_empty() || v.groups[0].filters.is_empty() {
                         None
                     } else {
                         Some(
-- 
2.43.0


From 8648b4638f88fda59d755df62b72639db64a9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 71/80] fix: numbers of a filter keep their digits

---
 src/platform/src/lib.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index c7c1be9..c5b4550 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -310,7 +310,12 @@ pub fn json_value_to_scalar(v: &Value) -> ScalarValue {
     match v {
         Value::Bool(v) => ScalarValue::Boolean(Some(*v)),
         Value::Number(n) => {
-            let dec = Decimal::try_from(n.as_f64().unwrap()).unwrap();
+            // whole numbers keep all their digits
+            let dec = match (n.as_i64(), n.as_u64()) {
+                (Some(v), _) => Decimal::from(v),
+                (_, Some(v)) => Decimal::from(v),
+                _ => Decimal::try_from(n.as_f64().unwrap()).unwrap(),
+            };
             ScalarValue::Decimal128(Some(dec.mantissa()), DECIMAL_PRECISION, dec.scale() as i8)
         }
         Value::String(v) => ScalarValue::Utf8(Some(v.to_string())),
@@ -323,14 +328,21 @@ pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
         ScalarValue::Decimal128(None, _, _) => Value::Null,
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
-        ScalarValue::Decimal128(Some(v), _p, s) => Value::Number(
-            Number::from_f64(
-                Decimal::from_i128_with_scale(*v, *s as u32)
-                    .to_f64()
-                    .unwrap(),
-            )
-            .unwrap(),
-        ),
+        ScalarValue::Decimal128(Some(v), _p, s) => {
+            // trailing zeros may not fit a decimal
+            let (mut v, mut s) = (*v, *s as u32);
+            while s > 0 && v % 10 == 0 {
+                v /= 10;
+                s -= 1;
+            }
+            match (s, i64::try_from(v)) {
+                (0, Ok(v)) => Value::Number(Number::from(v)),
+                _ => Value::Number(
+                    Number::from_f64(Decimal::from_i128_with_scale(v, s).to_f64().unwrap())
+                        .unwrap(),
+                ),
+            }
+        }
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
         ScalarValue::Utf8(Some(v)) => Value::String(v.to_owned()),
         _ => unreachable!("unexpected value"),
-- 
2.43.0


From fb409d2b6957a634f9d237dafc3e8905a35b1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 72/80] fix: event records can be searched for some of their
 properties

---
 src/query/src/event_records.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index d2f1f33..8c0cfea 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -308,20 +308,18 @@ pub fn build_search_plan(
     let input = if exprs.is_empty() {
         input
     } else {
+        // the id is needed to sort by, even if it isn't asked for
+        let mut sorted_exprs = exprs.clone();
         if !exprs.iter().any(|v| match v {
             Expr::Column(c) => c.name == *COLUMN_EVENT_ID,
             _ => unreachable!(),
         }) {
-            exprs = [
-                vec![col(Column {
-                    relation: None,
-                    name: COLUMN_EVENT_ID.to_string(),
-                })],
-                exprs.to_vec(),
-            ]
-            .concat();
+            sorted_exprs.push(col(Column {
+                relation: None,
+                name: COLUMN_EVENT_ID.to_string(),
+            }));
         }
-        LogicalPlan::Projection(Projection::try_new(exprs.clone(), Arc::new(input))?)
+        LogicalPlan::Projection(Projection::try_new(sorted_exprs, Arc::new(input))?)
     };
 
     let input = {
-- 
2.43.0


From 1857e1f484a57cab6699c0bcc0bb96268890f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 73/80] fix: values of records are shown with their own
 properties

---
 src/query/src/event_records.rs | 18 +++++++++---------
 src/query/src/group_records.rs | 14 ++++++++------
 src/query/src/lib.rs           | 20 ++++++++++++++++++++
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 8c0cfea..d8615de 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -67,6 +67,7 @@ use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
 use crate::project_plan;
+use crate::stored_properties;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -269,6 +270,14 @@ pub fn build_search_plan(
         &mut cols_hash,
     )?;
 
+    if properties.is_empty() {
+        let mut all = metadata.event_properties.list(ctx.project_id)?.data;
+        for g in 0..GROUPS_COUNT {
+            all.append(&mut metadata.group_properties[g].list(ctx.project_id)?.data);
+        }
+        (properties, exprs) = stored_properties(input.schema(), &all);
+    }
+
     let mut filter_exprs = vec![
         binary_expr(
             col(COLUMN_PROJECT_ID),
@@ -347,15 +356,6 @@ pub fn build_search_plan(
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.event_properties.list(ctx.project_id)?.data;
-        properties.append(&mut (l));
-        for g in 0..GROUPS_COUNT {
-            let mut l = metadata.group_properties[g].list(ctx.project_id)?.data;
-            properties.append(&mut (l));
-        }
-    }
-
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index ecdf21c..bd8b19b 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -62,6 +62,7 @@ use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
 use crate::project_plan;
+use crate::stored_properties;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -254,6 +255,13 @@ pub fn build_search_plan(
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input =
         decode_filter_dictionaries(&ctx, &metadata, req.filters.as_ref(), input, &mut cols_hash)?;
+    if properties.is_empty() {
+        let all = metadata.group_properties[req.group_id]
+            .list(ctx.project_id)?
+            .data;
+        (properties, exprs) = stored_properties(input.schema(), &all);
+    }
+
     let mut filter_exprs = vec![binary_expr(
         col(GROUP_COLUMN_PROJECT_ID),
         Operator::Eq,
@@ -303,12 +311,6 @@ pub fn build_search_plan(
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.group_properties[req.group_id]
-            .list(ctx.project_id)?
-            .data;
-        properties.append(&mut (l));
-    }
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 7ee0e7e..781075b 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -69,16 +69,19 @@ use datafusion::physical_plan::collect;
 use datafusion::physical_plan::display::DisplayableExecutionPlan;
 use datafusion::prelude::SessionConfig;
 use datafusion::prelude::SessionContext;
+use datafusion_common::DFSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::lit;
+use datafusion_expr::Expr;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter;
 use datafusion_expr::LogicalPlan;
 use datafusion_expr::Operator;
 pub use error::Result;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::properties::Property;
 use metadata::MetadataProvider;
 use storage::db::OptiDBImpl;
 use tracing::debug;
@@ -595,6 +598,23 @@ pub fn col_name(ctx: &Context, prop: &PropertyRef, md: &Arc<MetadataProvider>) -
     Ok(name)
 }
 
+/// Properties a table has columns for, in the order of the columns, with expressions selecting them.
+pub(crate) fn stored_properties(
+    schema: &DFSchema,
+    properties: &[Property],
+) -> (Vec<Property>, Vec<Expr>) {
+    schema
+        .fields()
+        .iter()
+        .filter_map(|field| {
+            properties
+                .iter()
+                .find(|prop| prop.column_name() == *field.name())
+                .map(|prop| (prop.clone(), col(datafusion_common::Column::from_name(field.name()))))
+        })
+        .unzip()
+}
+
 pub fn fix_filter(
     md: &Arc<MetadataProvider>,
     project_id: u64,
-- 
2.43.0


From 824d3d870e03da01d8a7213c70a8969e205c78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 74/80] fix: an event without filters restricts the event
 records too

---
 src/query/src/event_records.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index d8615de..cabd58c 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -596,12 +596,12 @@ pub fn fix_search_request(
                         of.push(f);
                     }
                 }
-                let e = Event {
-                    event: event.event.clone(),
-                    filters: if of.is_empty() { None } else { Some(of) },
-                };
-                oe.push(e);
             }
+            let e = Event {
+                event: event.event.clone(),
+                filters: if of.is_empty() { None } else { Some(of) },
+            };
+            oe.push(e);
         }
         out.events = Some(oe);
     }
-- 
2.43.0


From c17f098588e2633c5a77352f013c6d9fb9475cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 75/80] fix: the time of a group records search holds with
 filters too

---
 src/query/src/group_records.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index bd8b19b..50a61ee 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -27,7 +27,6 @@ use common::DECIMAL_PRECISION;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
-use datafusion_expr::and;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::expr;
@@ -275,7 +274,7 @@ pub fn build_search_plan(
 
     if let Some(filters) = &req.filters {
         let expr = event_filters_expression(&ctx, &metadata, input.schema(), filters)?;
-        filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
+        filter_exprs.push(expr);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
-- 
2.43.0


From e5438618294b9faab9d3a1b6368799bdc3fcff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 76/80] fix: a missing record is an error, a missing value is
 null

---
 src/query/src/event_records.rs | 56 ++++----------------------------
 src/query/src/group_records.rs | 58 ++++------------------------------
 2 files changed, 13 insertions(+), 101 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index cabd58c..967359d 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::EventRef;
 use common::query::PropValueFilter;
@@ -24,8 +14,6 @@ use common::types::COLUMN_PROJECT_ID;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use common::GROUPS_COUNT;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
@@ -43,6 +31,7 @@ use datafusion_expr::Operator;
 use datafusion_expr::Projection;
 use datafusion_expr::Sort;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::error::MetadataError;
 use metadata::properties::Property;
 use metadata::properties::Type;
 use metadata::MetadataProvider;
@@ -99,6 +88,10 @@ impl EventRecordsProvider {
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"event_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
 
+        if result.num_rows() == 0 {
+            return Err(MetadataError::NotFound(format!("event record {id} not found")).into());
+        }
+
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -122,44 +115,7 @@ impl EventRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
+                let value = ScalarValue::try_from_array(col, 0)?;
 
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 50a61ee..1b47380 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::PropValueFilter;
 use common::query::PropertyRef;
@@ -23,8 +13,6 @@ use common::types::GROUP_COLUMN_PROJECT_ID;
 use common::types::GROUP_COLUMN_VERSION;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
@@ -40,6 +28,7 @@ use datafusion_expr::Operator;
 use datafusion_expr::Projection;
 use datafusion_expr::Sort;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::error::MetadataError;
 use metadata::properties::Property;
 use metadata::MetadataProvider;
 use metrics::counter;
@@ -88,7 +77,7 @@ impl GroupRecordsProvider {
         let projection = (0..schema.fields.len()).collect::<Vec<_>>();
 
         let (session_ctx, state, plan) = initial_plan(&self.db, group_col(group_id), projection)?;
-        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id)?;
+        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id.clone())?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
@@ -98,6 +87,10 @@ impl GroupRecordsProvider {
             .record(elapsed);
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"group_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
+        if result.num_rows() == 0 {
+            return Err(MetadataError::NotFound(format!("group record {id} not found")).into());
+        }
+
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -113,44 +106,7 @@ impl GroupRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
+                let value = ScalarValue::try_from_array(col, 0)?;
 
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
-- 
2.43.0


From 405ba56392161a743626f12f4703bf893708f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 77/80] fix: a scan merges by the key even when the key isn't
 asked for

---
 src/storage/src/db.rs | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index d6e4407..b1f94d7 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -676,22 +676,25 @@ impl OptiDBImpl {
         let start_time = Instant::now();
         let memtable = tbl.memtable.lock();
 
-        let projected_fields = metadata
-            .schema
-            .fields
+        // parts are merged by the index columns, whether they are asked for or not
+        let index_cols = metadata.opts.index_cols;
+        let read_cols = (0..metadata.schema.fields.len())
+            .filter(|idx| *idx < index_cols || projection.contains(idx))
+            .collect::<Vec<_>>();
+        let shown_cols = read_cols
             .iter()
             .enumerate()
-            .filter_map(|(idx, f)| {
-                if projection.contains(&idx) {
-                    Some(f.clone())
-                } else {
-                    None
-                }
-            })
+            .filter(|(_, idx)| projection.contains(*idx))
+            .map(|(pos, _)| pos)
+            .collect::<Vec<_>>();
+        let hides_cols = shown_cols.len() < read_cols.len();
+        let read_fields = read_cols
+            .iter()
+            .map(|idx| metadata.schema.fields[*idx].clone())
             .collect::<Vec<_>>();
 
         let maybe_chunk = memtable.chunk(
-            Some(projection),
+            Some(read_cols),
             metadata.opts.index_cols,
             metadata.opts.is_replacing,
         )?;
@@ -718,7 +721,7 @@ impl OptiDBImpl {
                 is_replacing: metadata.opts.is_replacing,
                 array_size: metadata.opts.merge_array_size,
                 chunk_size: metadata.opts.merge_chunk_size,
-                fields: projected_fields
+                fields: read_fields
                     .iter()
                     .map(|f| f.name.clone())
                     .collect::<Vec<_>>(),
@@ -727,10 +730,20 @@ impl OptiDBImpl {
             Box::new(MergingIterator::new(
                 rdrs,
                 maybe_chunk,
-                Schema::from(projected_fields),
+                Schema::from(read_fields),
                 opts,
             )?) as Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>
         };
+        let iter = if hides_cols {
+            Box::new(iter.map(move |chunk| {
+                let arrays = chunk?.into_arrays();
+                Ok(Chunk::new(
+                    shown_cols.iter().map(|pos| arrays[*pos].clone()).collect(),
+                ))
+            })) as Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>
+        } else {
+            iter
+        };
         counter!(METRIC_STORE_SCANS_TOTAL, "table"=>tbl_name.to_string()).increment(1);
         Ok(ScanStream::new(
             iter,
-- 
2.43.0


From 205065fb68aae4f9105bd4b188d71675349fbeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 78/80] fix: values of a property can be asked for a custom
 event with filters

---
 src/query/src/properties.rs | 50 ++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 90422c5..6e3b7f8 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -5,6 +5,7 @@ use std::time::Instant;
 use arrow::array::ArrayRef;
 use common::group_col;
 use common::query::EventRef;
+use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
 use common::types::COLUMN_EVENT;
@@ -37,13 +38,16 @@ use storage::db::OptiDBImpl;
 use tracing::debug;
 
 use crate::col_name;
+use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
+use crate::event_filters;
 use crate::execute;
 use crate::expr::event_expression;
 use crate::expr::property_expression;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
+use crate::project_plan;
 use crate::Context;
 
 pub struct PropertiesProvider {
@@ -84,7 +88,7 @@ impl PropertiesProvider {
 pub struct LogicalPlanBuilder {}
 
 macro_rules! property_col {
-    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr) => {{
+    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr,$cols_hash:expr) => {{
         let col_name = $prop.column_name();
         let expr = col(col_name.as_str());
         let _aggr_schema = DFSchema::new_with_metadata(
@@ -95,7 +99,7 @@ macro_rules! property_col {
         let input = LogicalPlan::Aggregate(agg_fn);
 
         match $prop.dictionary_type {
-            Some(_) => {
+            Some(_) if !$cols_hash.contains_key(&col_name) => {
                 let dict = SingleDictionaryProvider::new(
                     $ctx.project_id,
                     $tbl,
@@ -110,7 +114,7 @@ macro_rules! property_col {
                     )])?),
                 })
             }
-            None => input,
+            _ => input,
         }
     }};
 }
@@ -122,6 +126,32 @@ impl LogicalPlanBuilder {
         input: LogicalPlan,
         req: PropertyValues,
     ) -> Result<LogicalPlan> {
+        let mut cols_hash: HashMap<String, ()> = HashMap::new();
+        let input = match &req.event {
+            Some(event) => {
+                let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
+                for filter in event_filters(&ctx, &metadata, event, None)? {
+                    decode_filter_single_dictionary(
+                        &ctx,
+                        &metadata,
+                        &mut cols_hash,
+                        &mut decode_cols,
+                        &filter,
+                    )?;
+                }
+                if decode_cols.is_empty() {
+                    input
+                } else {
+                    // keys of other projects are unknown to the dictionaries
+                    let input = project_plan(&ctx, COLUMN_PROJECT_ID, input)?;
+                    LogicalPlan::Extension(Extension {
+                        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols)?),
+                    })
+                }
+            }
+            None => input,
+        };
+
         let mut expr = binary_expr(
             col(COLUMN_PROJECT_ID),
             Operator::Eq,
@@ -143,7 +173,7 @@ impl LogicalPlanBuilder {
                     metadata.group_properties[*group].get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, group_col(*group), input, prop),
+                    property_col!(ctx, metadata, group_col(*group), input, prop, cols_hash),
                     col_name,
                 )
             }
@@ -153,7 +183,7 @@ impl LogicalPlanBuilder {
                     .get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, TABLE_EVENTS.to_string(), input, prop),
+                    property_col!(ctx, metadata, TABLE_EVENTS.to_string(), input, prop, cols_hash),
                     col_name,
                 )
             }
@@ -219,6 +249,14 @@ fn projection(
 ) -> Result<Vec<String>> {
     let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
     fields.push(col_name(ctx, &req.property, md)?);
-    fields.dedup();
+    if let Some(event) = &req.event {
+        for filter in event_filters(ctx, md, event, None)? {
+            match &filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, property, md)?)
+                }
+            }
+        }
+    }
     Ok(fields)
 }
-- 
2.43.0


From 9019f044f36a807657ee063144888492b043cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 79/80] fix: values of a time property can be filtered

---
 src/query/src/properties.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 6e3b7f8..c40c1fa 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -45,6 +45,7 @@ use crate::event_filters;
 use crate::execute;
 use crate::expr::event_expression;
 use crate::expr::property_expression;
+use crate::fix_filter;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::project_plan;
@@ -195,18 +196,30 @@ impl LogicalPlanBuilder {
         };
 
         let input = match &req.filter {
-            Some(filter) => LogicalPlan::Filter(PlanFilter::try_new(
-                property_expression(
-                    &ctx,
-                    &metadata,
-                    input.schema(),
-                    TABLE_EVENTS,
-                    &req.property,
-                    &filter.operation,
-                    filter.value.clone(),
-                )?,
-                Arc::new(input),
-            )?),
+            Some(filter) => {
+                // values have to be of the type of the property
+                let filter = PropValueFilter::Property {
+                    property: req.property.clone(),
+                    operation: filter.operation.clone(),
+                    value: filter.value.clone(),
+                };
+                let expr = match fix_filter(&metadata, ctx.project_id, &filter)? {
+                    PropValueFilter::Property {
+                        property,
+                        operation,
+                        value,
+                    } => property_expression(
+                        &ctx,
+                        &metadata,
+                        input.schema(),
+                        TABLE_EVENTS,
+                        &property,
+                        &operation,
+                        value,
+                    )?,
+                };
+                LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?)
+            }
             None => input,
         };
 
-- 
2.43.0


From e84597677d5a2d22014e93706b5376d69bbf0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 80/80] fix: filters of an event records search are applied

---
 src/query/src/event_records.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 967359d..ff61fff 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -265,6 +265,17 @@ pub fn build_search_plan(
         filter_exprs.push(multi_or(exprs))
     }
 
+    if let Some(filters) = &req.filters
+        && !filters.is_empty()
+    {
+        filter_exprs.push(event_filters_expression(
+            &ctx,
+            &metadata,
+            input.schema(),
+            filters,
+        )?);
+    }
+
     let input = LogicalPlan::Filter(PlanFilter::try_new(
         multi_and(filter_exprs),
         Arc::new(input),
-- 
2.43.0

