From 752c31e060288b02b5946130e8da3a6041dff011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 01/52] fix: altering an attribute no longer drops its
 uniqueness

AttributeBuilder::mutate treated an alteration that does not mention
:db/unique as a request to remove it, so e.g. asserting :db/isComponent or
:db/index on a unique attribute silently made it non-unique in memory and in
the datoms flags while :db/unique stayed asserted on disk.
---
 db/src/schema.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/src/schema.rs b/db/src/schema.rs
index fdbed5a..e64fce5 100644
--- a/db/src/schema.rs
+++ b/db/src/schema.rs
@@ -226,9 +226,6 @@ impl AttributeBuilder {
                 attribute.unique = *unique;
                 mutations.push(AttributeAlteration::Unique);
             }
-        } else if attribute.unique != None {
-            attribute.unique = None;
-            mutations.push(AttributeAlteration::Unique);
         }
 
         if let Some(index) = self.index {
-- 
2.43.0


From bb6ecfaca48fca0c9608ea9d3f9c71dcc6af5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 02/52] fix: retracting a value a single-valued attribute does
 not have changes nothing

[:db/retract e a v] for a :db.cardinality/one attribute matched the datom by
[e a] alone, so it deleted whatever value was there.
---
 db/src/db.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8b7401e..d6909d7 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -644,7 +644,8 @@ pub trait MentatStoring {
 /// See https://github.com/mozilla/mentat/wiki/Transacting:-entity-to-SQL-translation.
 fn search(conn: &rusqlite::Connection) -> Result<()> {
     // First is fast, only one table walk: lookup by exact eav.
-    // Second is slower, but still only one table walk: lookup old value by ea.
+    // Second is slower, but still only one table walk: lookup old value by ea.  A retraction only
+    // ever matches the value it names.
     let s = r#"
       INSERT INTO temp.search_results
       SELECT t.e0, t.a0, t.v0, t.value_type_tag0, t.added0, t.flags0, ':db.cardinality/many', d.rowid, d.v
@@ -661,7 +662,10 @@ fn search(conn: &rusqlite::Connection) -> Result<()> {
       FROM temp.inexact_searches AS t
       LEFT JOIN datoms AS d
       ON t.e0 = d.e AND
-         t.a0 = d.a"#;
+         t.a0 = d.a AND
+         (t.added0 IS 1 OR
+          (t.value_type_tag0 = d.value_type_tag AND
+           t.v0 = d.v))"#;
 
     let mut stmt = conn.prepare_cached(s)?;
     stmt.execute(rusqlite::params![])
-- 
2.43.0


From 196a6b1fd0d2a22f98991a615cf036d8f0ba5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 03/52] fix: unique-identity assertions of an upserted tempid
 are transacted

A unique-identity assertion whose tempid was resolved by another assertion,
e.g. [:db/add "t" :person/email "new"] beside [:db/add "t" :person/name
"known"], was moved to the upserted population on the premise that it is
already in the store.  It may not be, and the population was discarded when
evolving further and when building the final terms, so it was silently lost.
---
 db/src/tx.rs                | 1 +
 db/src/upsert_resolution.rs | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8b0a65a..cea8e0b 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -1110,6 +1110,7 @@ pub(crate) fn into_aev_trie<'schema>(
     inert_terms: Vec<TermWithTempIds>,
 ) -> Result<AEVTrie<'schema>> {
     let mut trie = AEVTrie::default();
+    extend_aev_trie(schema, final_populations.upserted, &mut trie)?;
     extend_aev_trie(schema, final_populations.resolved, &mut trie)?;
     extend_aev_trie(schema, final_populations.allocated, &mut trie)?;
     // Inert terms need to be unwrapped.  It is a coding error if a term can't be unwrapped.
diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index f656425..45bf6ce 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -60,8 +60,8 @@ pub(crate) struct Generation {
     /// - [:db/add e b OTHERID].
     allocations: Vec<TermWithTempIds>,
 
-    /// Entities that upserted and no longer reference tempids.  These assertions are guaranteed to
-    /// be in the store.
+    /// Entities that upserted and no longer reference tempids.  These assertions may or may not be
+    /// in the store: a tempid that upserted may have several unique-identity assertions.
     upserted: Vec<TermWithoutTempIds>,
 
     /// Entities that resolved due to other upserts and no longer reference tempids.  These
@@ -146,7 +146,8 @@ impl Generation {
         let mut next = Generation::default();
 
         // We'll iterate our own allocations to resolve more things, but terms that have already
-        // resolved stay resolved.
+        // upserted or resolved stay that way.
+        next.upserted = self.upserted;
         next.resolved = self.resolved;
 
         for UpsertE(t, a, v) in self.upserts_e {
-- 
2.43.0


From 371c6f7cd91abbdf882dea1cca60f6a5252ef69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 04/52] fix: a tempid that upserts in one step stays resolved
 in the next

When both ends of a unique-identity assertion [t1 a t2] upsert, the assertion
is reconsidered in the next step, where the map handed to evolve_one_step no
longer held t1; if [a v] was not in the store t1 was allocated again and the
transactor panicked.
---
 db/src/tx.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index cea8e0b..874c28f 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -735,6 +735,9 @@ where
         // Now we can collect upsert populations.
         let (mut generation, inert_terms) = Generation::from(terms, &self.schema)?;
 
+        // Every tempid that has upserted so far.
+        let mut upserted_temp_ids: TempIdMap = TempIdMap::default();
+
         // And evolve them forward.
         while generation.can_evolve() {
             debug!("generation {:?}", generation);
@@ -742,12 +745,13 @@ where
             let tempid_avs = generation.temp_id_avs();
             debug!("trying to resolve avs {:?}", tempid_avs);
 
-            // Evolve further.
+            // Evolve further.  A tempid that upserted in an earlier step might appear in this one.
             let temp_id_map: TempIdMap = self.resolve_temp_id_avs(&tempid_avs[..])?;
 
             debug!("resolved avs for tempids {:?}", temp_id_map);
 
-            generation = generation.evolve_one_step(&temp_id_map);
+            upserted_temp_ids.extend(temp_id_map.iter().map(|(t, e)| (t.clone(), *e)));
+            generation = generation.evolve_one_step(&upserted_temp_ids);
 
             // Errors.  BTree* since we want deterministic results.
             let mut conflicting_upserts: BTreeMap<TempId, BTreeSet<KnownEntid>> =
-- 
2.43.0


From c55f40632d889e97b6a735c40aaeae4b5ac8854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 05/52] fix: idents exchanged between entities in one
 transaction stay in the in-memory schema

Removing the old ident of one entity after inserting it as the new ident of
another dropped the new association from the ident map.
---
 db/src/metadata.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/db/src/metadata.rs b/db/src/metadata.rs
index ac43939..3449ae2 100644
--- a/db/src/metadata.rs
+++ b/db/src/metadata.rs
@@ -413,25 +413,30 @@ where
     let mut idents_altered: BTreeMap<Entid, IdentAlteration> = BTreeMap::new();
 
     // Asserted, altered, or retracted :db/idents update the relevant entids.
+    // Remove every old association before making new ones: an ident taken from one entity may be
+    // given to another in the same transaction.
+    for (entid, ident) in &ident_set.retracted {
+        schema.entid_map.remove(entid);
+        schema.ident_map.remove(ident);
+        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    }
+
+    for (old_ident, _new_ident) in ident_set.altered.values() {
+        schema.ident_map.remove(old_ident); // Remove old.
+    }
+
     for (entid, ident) in ident_set.asserted {
         schema.entid_map.insert(entid, ident.clone());
         schema.ident_map.insert(ident.clone(), entid);
         idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
     }
 
-    for (entid, (old_ident, new_ident)) in ident_set.altered {
+    for (entid, (_old_ident, new_ident)) in ident_set.altered {
         schema.entid_map.insert(entid, new_ident.clone()); // Overwrite existing.
-        schema.ident_map.remove(&old_ident); // Remove old.
         schema.ident_map.insert(new_ident.clone(), entid); // Insert new.
         idents_altered.insert(entid, IdentAlteration::Ident(new_ident.clone()));
     }
 
-    for (entid, ident) in &ident_set.retracted {
-        schema.entid_map.remove(entid);
-        schema.ident_map.remove(ident);
-        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
-    }
-
     // Component attributes need to change if either:
     // - a component attribute changed
     // - a schema attribute that was a component was retracted
-- 
2.43.0


From 72dc07ed73bc4fcb60e1909310c53e895e3e3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 06/52] fix: altering an attribute cannot leave it illegal

Only the fragment of an alteration was validated, never the altered attribute:
a unique attribute could lose its index, a non-reference become a component,
after which the store could not be opened again.
---
 db/src/db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index d6909d7..d15accd 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -39,7 +39,7 @@ use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc}
 use db_traits::errors::{DbErrorKind, Result};
 
 use crate::metadata;
-use crate::schema::SchemaBuilding;
+use crate::schema::{AttributeValidation, SchemaBuilding};
 use crate::tx::transact;
 use crate::types::{AVMap, AVPair, Partition, PartitionMap, DB};
 
@@ -1302,6 +1302,9 @@ SELECT EXISTS
                 }
             }
         }
+
+        // An alteration must leave the attribute as legal as an installation.
+        attribute.validate(|| entid.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From 271903e9a21831ec5cd265f34706ba3853d16d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 07/52] fix: a many-valued attribute without conflicting values
 can become single-valued

SELECT EXISTS always yields a row, so the alteration was refused whatever the
data.
---
 db/src/db.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index d15accd..cbc8279 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1236,13 +1236,13 @@ pub fn update_metadata(
     let mut unique_value_stmt = conn.prepare("UPDATE datoms SET unique_value = ? WHERE a = ?")?;
     let mut cardinality_stmt = conn.prepare(
         r#"
-SELECT EXISTS
-    (SELECT 1
-        FROM datoms AS left, datoms AS right
-        WHERE left.a = ? AND
-        left.a = right.a AND
-        left.e = right.e AND
-        left.v <> right.v)"#,
+SELECT 1
+    FROM datoms AS left, datoms AS right
+    WHERE left.a = ? AND
+    left.a = right.a AND
+    left.e = right.e AND
+    left.v <> right.v
+    LIMIT 1"#,
     )?;
 
     for (&entid, alterations) in &metadata_report.attributes_altered {
-- 
2.43.0


From 8ef0cdffdfab808cbcd018a3331e64f0b9865ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 08/52] fix: ids mentioned only as values are not allocated
 again after reopening

The next free id was derived from the entity column alone.
---
 db/src/db.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index cbc8279..f4e4d4b 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -34,7 +34,7 @@ use crate::entids;
 
 use core_traits::{attribute, Attribute, AttributeBitFlags, Entid, TypedValue, ValueType};
 
-use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc};
+use mentat_core::{AttributeMap, FromMicros, IdentMap, SQLValueType, Schema, ToMicros, ValueRc};
 
 use db_traits::errors::{DbErrorKind, Result};
 
@@ -507,37 +507,29 @@ pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
     // - on first start,
     // - while moving timelines,
     // - during sync.
-    // First part of the union sprinkles 'allow_excision' into the 'parts' view.
-    // Second part of the union takes care of partitions which are known
-    // but don't have any transactions.
+    // An id is taken once a transaction of the main timeline mentions it, as an entity or as a
+    // reference.  Partitions without any transactions start at the beginning.
     conn.prepare(
         "
-        SELECT
-            known_parts.part,
-            known_parts.start,
-            known_parts.end,
-            parts.idx,
-            known_parts.allow_excision
-        FROM
-            parts
-        INNER JOIN
-            known_parts
-        ON parts.part = known_parts.part
-
-        UNION
-
         SELECT
             part,
             start,
             end,
-            start,
+            COALESCE(
+                (SELECT
+                    max(id) + 1
+                FROM
+                    (SELECT e AS id FROM timelined_transactions WHERE timeline = ?1
+                     UNION ALL
+                     SELECT v AS id FROM timelined_transactions WHERE timeline = ?1 AND value_type_tag = ?2)
+                WHERE
+                    id BETWEEN known_parts.start AND known_parts.end),
+                start),
             allow_excision
         FROM
-            known_parts
-        WHERE
-            part NOT IN (SELECT part FROM parts)",
+            known_parts",
     )?
-    .query_and_then(rusqlite::params![], |row| -> Result<(String, Partition)> {
+    .query_and_then(rusqlite::params![crate::TIMELINE_MAIN, ValueType::Ref.value_type_tag()], |row| -> Result<(String, Partition)> {
         Ok((
             row.get(0)?,
             Partition::new(row.get(1)?, row.get(2)?, row.get(3)?, row.get(4)?),
-- 
2.43.0


From 52b3e08000b69b405aca450d2e88e075fb696b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 09/52] fix: identified tempids allocate one id between them

---
 db/src/tx.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 874c28f..d87262a 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -792,10 +792,16 @@ where
 
         debug!("unresolved tempids {:?}", unresolved_temp_ids);
 
+        // Tempids that were identified with each other share an index.
+        let entid_count = unresolved_temp_ids
+            .values()
+            .max()
+            .map_or(0, |index| index + 1);
+
         // TODO: track partitions for temporary IDs.
         let entids = self
             .partition_map
-            .allocate_entids(":db.part/user", unresolved_temp_ids.len());
+            .allocate_entids(":db.part/user", entid_count);
 
         let temp_id_allocations = unresolved_temp_ids
             .into_iter()
-- 
2.43.0


From e15cee82fb821ccac2a355fc673423b00a0961f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 10/52] fix: an attribute is removed with all of its
 characteristics

Characteristics left behind were forgotten in memory but took part in the schema
on disk again once the attribute was installed anew.
---
 db/src/db.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index f4e4d4b..f7561a3 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1168,7 +1168,7 @@ fn row_to_datom_assertion(row: &rusqlite::Row) -> Result<(Entid, Entid, TypedVal
 /// "datoms" and "transactions" table as appropriate.
 pub fn update_metadata(
     conn: &rusqlite::Connection,
-    _old_schema: &Schema,
+    old_schema: &Schema,
     new_schema: &Schema,
     metadata_report: &metadata::MetadataReport,
 ) -> Result<()> {
@@ -1224,6 +1224,23 @@ pub fn update_metadata(
         conn.execute(&s, rusqlite::params![])?;
     }
 
+    // An attribute is removed with all of its characteristics: what remained would be forgotten
+    // here, but take part in the schema again, if the attribute was ever installed anew.
+    let mut remains_stmt = conn.prepare(&format!(
+        "SELECT 1 FROM datoms WHERE e = ? AND a IN {}",
+        entids::SCHEMA_SQL_LIST.as_str()
+    ))?;
+    for &entid in old_schema.attribute_map.keys() {
+        if !new_schema.attribute_map.contains_key(&entid)
+            && remains_stmt.exists(&[&entid as &dyn ToSql])?
+        {
+            bail!(DbErrorKind::SchemaAlterationFailed(format!(
+                "Cannot remove schema attribute {} but leave some of its characteristics",
+                entid
+            )));
+        }
+    }
+
     let mut index_stmt = conn.prepare("UPDATE datoms SET index_avet = ? WHERE a = ?")?;
     let mut unique_value_stmt = conn.prepare("UPDATE datoms SET unique_value = ? WHERE a = ?")?;
     let mut cardinality_stmt = conn.prepare(
-- 
2.43.0


From db77483f5dab3ae11d1285e592be59c0014a4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 11/52] fix: subjects written in reversed notation must be
 allocated ids, and their retractions retract

A numeric id in the value place of :attr/_reversed escaped the check every other
subject undergoes; a programmatic retraction in reversed notation asserted.
---
 db/src/tx.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index d87262a..03a842c 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -391,7 +391,7 @@ where
                                     Some(tempid) => Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
                                     None => {
                                         if let TypedValue::Ref(entid) = v.into_typed_value(&self.schema, ValueType::Ref)? {
-                                            Ok(Either::Left(KnownEntid(entid)))
+                                            self.ensure_entid_exists(entid).map(Either::Left)
                                         } else {
                                             // The given value is expected to be :db.type/ref, so this shouldn't happen.
                                             bail!(DbErrorKind::NotYetImplemented(format!("Cannot use :attr/_reversed notation for attribute {} with value that is not :db.valueType :db.type/ref", forward_a)))
@@ -401,7 +401,7 @@ where
                             },
 
                             entmod::ValuePlace::Entid(entid) =>
-                                Ok(Either::Left(KnownEntid(self.entity_a_into_term_a(entid)?))),
+                                self.entity_e_into_term_e(entmod::EntityPlace::<W>::Entid(entid)),
 
                             entmod::ValuePlace::TempId(tempid) =>
                                 Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
@@ -469,7 +469,7 @@ where
                         let reversed_a = in_process.entity_a_into_term_a(reversed_a)?;
                         let reversed_v = in_process.entity_e_into_term_v(e)?;
                         terms.push(Term::AddOrRetract(
-                            OpType::Add,
+                            op,
                             reversed_e,
                             reversed_a,
                             reversed_v,
-- 
2.43.0


From 18a6b65525a25388195fa98922431610d2ec21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 12/52] fix: references must name allocated ids

A numeric reference to an id no partition had allocated was stored, and came to
denote whatever entity was created next.
---
 db/src/tx.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 03a842c..fc1df5d 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -488,9 +488,16 @@ where
                                         Some(tempid) => Either::Right(LookupRefOrTempId::TempId(
                                             in_process.temp_ids.intern(tempid),
                                         )),
-                                        None => v
-                                            .into_typed_value(&self.schema, attribute.value_type)
-                                            .map(Either::Left)?,
+                                        None => {
+                                            let v = v.into_typed_value(
+                                                &self.schema,
+                                                attribute.value_type,
+                                            )?;
+                                            if let TypedValue::Ref(e) = v {
+                                                in_process.ensure_entid_exists(e)?;
+                                            }
+                                            Either::Left(v)
+                                        }
                                     }
                                 } else {
                                     v.into_typed_value(&self.schema, attribute.value_type)
@@ -498,9 +505,8 @@ where
                                 }
                             }
 
-                            entmod::ValuePlace::Entid(entid) => Either::Left(TypedValue::Ref(
-                                in_process.entity_a_into_term_a(entid)?,
-                            )),
+                            entmod::ValuePlace::Entid(entid) => in_process
+                                .entity_e_into_term_v(entmod::EntityPlace::<V>::Entid(entid))?,
 
                             entmod::ValuePlace::TempId(tempid) => Either::Right(
                                 LookupRefOrTempId::TempId(in_process.temp_ids.intern(tempid)),
-- 
2.43.0


From a0fd4c54fe6e09528e4a19b614ad8ed813777264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 13/52] fix: a ground integer that is no entid can still be a
 long

---
 query-algebrizer/src/clauses/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 9448229..219eb4b 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -138,11 +138,11 @@ impl ConjoiningClauses {
                         // This can only be a ref.
                         Ok(Val(TypedValue::Ref(x)))
                     }
-                    (_, false, true) => {
+                    (_, false, true) | (false, true, true) => {
                         // This can only be a long.
                         Ok(Val(TypedValue::Long(x)))
                     }
-                    (false, true, _) => {
+                    (false, true, false) => {
                         // This isn't a valid ref, but that's the type to which this must conform!
                         Ok(Impossible(EmptyBecause::TypeMismatch {
                             var: var.clone(),
-- 
2.43.0


From 67f997627443936bc1b82920aa2b414f1b253850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 14/52] fix: instants before 1970 and instants from
 milliseconds convert exactly

---
 edn/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index c1f4b07..311b316 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -653,7 +653,10 @@ pub trait FromMicros {
 
 impl FromMicros for DateTime<Utc> {
     fn from_micros(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000_000, ((ts % 1_000_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000_000),
+            (ts.rem_euclid(1_000_000) as u32) * 1_000,
+        )
     }
 }
 
@@ -675,7 +678,10 @@ pub trait FromMillis {
 
 impl FromMillis for DateTime<Utc> {
     fn from_millis(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000, ((ts % 1_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000),
+            (ts.rem_euclid(1_000) as u32) * 1_000_000,
+        )
     }
 }
 
-- 
2.43.0


From 6ed52dbef1c05592191b7ce1617013f1d201565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 15/52] fix: the nil UUID is a UUID like any other

---
 db/src/db.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index f7561a3..38e1a84 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -421,17 +421,14 @@ impl TypedSQLValue for TypedValue {
             (5, rusqlite::types::Value::Integer(x)) => Ok(TypedValue::Long(x)),
             (5, rusqlite::types::Value::Real(x)) => Ok(TypedValue::Double(x.into())),
             (10, rusqlite::types::Value::Text(x)) => Ok(x.into()),
-            (11, rusqlite::types::Value::Blob(x)) => {
-                let u = Uuid::from_bytes(x.as_slice().try_into().unwrap());
-                if u.is_nil() {
-                    // Rather than exposing Uuid's ParseError…
-                    bail!(DbErrorKind::BadSQLValuePair(
-                        rusqlite::types::Value::Blob(x),
-                        value_type_tag
-                    ));
-                }
-                Ok(TypedValue::Uuid(u))
-            }
+            (11, rusqlite::types::Value::Blob(x)) => match x.as_slice().try_into() {
+                Ok(bytes) => Ok(TypedValue::Uuid(Uuid::from_bytes(bytes))),
+                // Rather than exposing the slice's conversion error…
+                Err(_) => bail!(DbErrorKind::BadSQLValuePair(
+                    rusqlite::types::Value::Blob(x),
+                    value_type_tag
+                )),
+            },
             (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
         }
-- 
2.43.0


From a48522928dbb84f9542b73ef16fc0cdf92b35088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 16/52] fix: keywords without a namespace read back, and can be
 looked for

---
 db/src/db.rs     | 7 ++++++-
 edn/src/query.rs | 3 +--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 38e1a84..f85f62b 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -429,7 +429,12 @@ impl TypedSQLValue for TypedValue {
                     value_type_tag
                 )),
             },
-            (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
+            (13, rusqlite::types::Value::Text(x)) => match x.strip_prefix(':') {
+                Some(name) if !name.is_empty() && !name.contains('/') => {
+                    Ok(edn::Keyword::plain(name).into())
+                }
+                _ => to_namespaced_keyword(&x).map(|k| k.into()),
+            },
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
         }
     }
diff --git a/edn/src/query.rs b/edn/src/query.rs
index 7cc6bcd..5e6e614 100644
--- a/edn/src/query.rs
+++ b/edn/src/query.rs
@@ -380,7 +380,7 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
             crate::SpannedValue::PlainSymbol(ref x) => {
                 Variable::from_symbol(x).map(PatternValuePlace::Variable)
             }
-            crate::SpannedValue::Keyword(ref x) if x.is_namespaced() => Some(x.clone().into()),
+            crate::SpannedValue::Keyword(ref x) => Some(x.clone().into()),
             crate::SpannedValue::Boolean(x) => {
                 Some(PatternValuePlace::Constant(NonIntegerConstant::Boolean(x)))
             }
@@ -405,7 +405,6 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
             // These don't appear in queries.
             crate::SpannedValue::Nil => None,
             crate::SpannedValue::NamespacedSymbol(_) => None,
-            crate::SpannedValue::Keyword(_) => None, // … yet.
             crate::SpannedValue::Map(_) => None,
             crate::SpannedValue::List(_) => None,
             crate::SpannedValue::Set(_) => None,
-- 
2.43.0


From 93cc18766b0a2af619f68b709ebe2b4259b0f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 17/52] fix: looking up a cached attribute finds its values
 whatever its cardinality

---
 transaction/src/query.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 9f017c5..4bfb4ed 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -217,6 +217,11 @@ where
     if known.is_attribute_cached_forward(attrid) {
         Ok(known
             .get_value_for_entid(known.schema, attrid, entid)
+            .or_else(|| {
+                known
+                    .get_values_for_entid(known.schema, attrid, entid)
+                    .and_then(|vs| vs.first())
+            })
             .cloned())
     } else {
         fetch_values(sqlite, known, entid, attrid, true)
@@ -243,6 +248,11 @@ where
         Ok(known
             .get_values_for_entid(known.schema, attrid, entid)
             .cloned()
+            .or_else(|| {
+                known
+                    .get_value_for_entid(known.schema, attrid, entid)
+                    .map(|v| vec![v.clone()])
+            })
             .unwrap_or_else(Vec::new))
     } else {
         fetch_values(sqlite, known, entid, attrid, false)
-- 
2.43.0


From 3ea763b5c08cb42b976f8b3749bc674c1849135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 18/52] fix: the query engine does not take one cached value,
 or none, for all of them

---
 query-algebrizer/src/clauses/pattern.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 154acde..6412c54 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -372,7 +372,8 @@ impl ConjoiningClauses {
                                         }
                                         ValueType::Keyword => {
                                             let tv: TypedValue = TypedValue::Keyword(kw.clone());
-                                            return self.reverse_lookup(known, var, attr, &tv);
+                                            return cached_reverse
+                                                && self.reverse_lookup(known, var, attr, &tv);
                                         }
                                         t => {
                                             let tv: TypedValue = TypedValue::Keyword(kw.clone());
@@ -397,7 +398,8 @@ impl ConjoiningClauses {
                         EvolvedNonValuePlace::Entid(entity) => {
                             match pattern.value {
                                 EvolvedValuePlace::Variable(ref var) => {
-                                    if cached_forward {
+                                    // Only one value can be bound here.
+                                    if cached_forward && !attribute.multival {
                                         match known.get_value_for_entid(known.schema, attr, entity)
                                         {
                                             None => {
-- 
2.43.0


From caedb9dfea6581769d0252407c86741a2b22f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 19/52] fix: transaction watchers are told what a transaction
 changed, once it can no longer fail

---
 db/src/db.rs | 23 +++++++++++++++++++++++
 db/src/tx.rs | 13 +++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index f85f62b..63f00ff 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1145,6 +1145,29 @@ pub fn committed_metadata_assertions(
     m
 }
 
+/// Returns the assertions and retractions that a transaction made.
+pub(crate) fn committed_assertions(
+    conn: &rusqlite::Connection,
+    tx_id: Entid,
+) -> Result<Vec<(Entid, Entid, TypedValue, bool)>> {
+    // A fulltext value is the rowid of its text.
+    let mut stmt = conn.prepare_cached(
+        r#"
+        SELECT e, a,
+            CASE WHEN value_type_tag = 10 AND typeof(v) = 'integer'
+                THEN (SELECT text FROM fulltext_values WHERE rowid = v)
+                ELSE v END,
+            value_type_tag, added
+        FROM transactions
+        WHERE tx = ?
+        ORDER BY a, e, added"#,
+    )?;
+    let m: Result<Vec<_>> = stmt
+        .query_and_then(&[&tx_id as &dyn ToSql], row_to_transaction_assertion)?
+        .collect();
+    m
+}
+
 /// Takes a row, produces a transaction quadruple.
 fn row_to_transaction_assertion(row: &rusqlite::Row) -> Result<(Entid, Entid, TypedValue, bool)> {
     Ok((
diff --git a/db/src/tx.rs b/db/src/tx.rs
index fc1df5d..c9b6ff8 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -907,8 +907,6 @@ where
                         .map(|v| (true, v))
                         .chain(ars.retract.into_iter().map(|v| (false, v)))
                     {
-                        let op = if added { OpType::Add } else { OpType::Retract };
-                        self.watcher.datom(op, e, a, &v);
                         queue.push((e, a, attribute, v, added));
                     }
                 }
@@ -945,8 +943,6 @@ where
             }
         }
 
-        self.watcher.done(&self.tx_id, self.schema)?;
-
         if tx_might_update_metadata {
             // Extract changes to metadata from the store.
             let metadata_assertions = match action {
@@ -977,6 +973,15 @@ where
             }
         }
 
+        // Nothing can fail from here on: report what the transaction changed.
+        if let TransactorAction::MaterializeAndCommit = action {
+            for (e, a, v, added) in db::committed_assertions(self.store, self.tx_id)? {
+                let op = if added { OpType::Add } else { OpType::Retract };
+                self.watcher.datom(op, e, a, &v);
+            }
+        }
+        self.watcher.done(&self.tx_id, self.schema)?;
+
         Ok(TxReport {
             tx_id: self.tx_id,
             tx_instant,
-- 
2.43.0


From e5bf95f4ecedff3cd41d120a49c4089b7a776244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 20/52] fix: attribute caches follow retractions, alterations
 and re-registrations, and commit when shared

---
 db/src/cache.rs        | 181 +++++++++++++++++++++++------------------
 transaction/src/lib.rs |   4 +
 2 files changed, 108 insertions(+), 77 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 008ff0a..7ade328 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -437,10 +437,6 @@ impl UniqueReverseAttributeCache {
     fn get_e(&self, v: &TypedValue) -> Option<Entid> {
         self.v_e.get(v).and_then(|o| *o)
     }
-
-    fn lookup(&self, v: &TypedValue) -> Option<Option<Entid>> {
-        self.v_e.get(v).cloned()
-    }
 }
 
 #[derive(Clone, Debug, Default)]
@@ -1002,41 +998,42 @@ impl AttributeCaches {
     }
 }
 
-// We need this block for fall-back.
+/// SQL stuff.
 impl AttributeCaches {
-    fn get_entid_for_value_if_present(
-        &self,
-        attribute: Entid,
-        value: &TypedValue,
-    ) -> Option<Option<Entid>> {
-        if self.is_attribute_cached_reverse(attribute) {
-            self.unique_reverse
-                .get(&attribute)
-                .and_then(|c| c.lookup(value))
-        } else {
-            None
+    /// Forget what is cached for `attribute`, leaving empty caches of the kinds that `schema` calls
+    /// for: there might be no rows to create them.
+    fn reset_attribute(&mut self, schema: &Schema, attribute: Entid) {
+        self.single_vals.remove(&attribute);
+        self.multi_vals.remove(&attribute);
+        self.unique_reverse.remove(&attribute);
+        self.non_unique_reverse.remove(&attribute);
+        if let Some(a) = schema.attribute_for_entid(attribute) {
+            if self.is_attribute_cached_forward(attribute) {
+                if a.multival {
+                    self.fmc(attribute, None);
+                } else {
+                    self.fsc(attribute, None);
+                }
+            }
+            if self.is_attribute_cached_reverse(attribute) {
+                if a.unique.is_some() {
+                    self.ruc(attribute, None);
+                } else {
+                    self.rnuc(attribute, None);
+                }
+            }
         }
     }
 
-    fn get_value_for_entid_if_present(
-        &self,
-        schema: &Schema,
-        attribute: Entid,
-        entid: Entid,
-    ) -> Option<Option<&TypedValue>> {
-        if let Some(&Some(ref tv)) = self
-            .value_pairs(schema, attribute)
-            .and_then(|c| c.get(&entid))
-        {
-            Some(Some(tv))
-        } else {
-            None
-        }
+    fn holds_forward(&self, attribute: Entid) -> bool {
+        self.single_vals.contains_key(&attribute) || self.multi_vals.contains_key(&attribute)
+    }
+
+    fn holds_reverse(&self, attribute: Entid) -> bool {
+        self.unique_reverse.contains_key(&attribute)
+            || self.non_unique_reverse.contains_key(&attribute)
     }
-}
 
-/// SQL stuff.
-impl AttributeCaches {
     fn repopulate(
         &mut self,
         schema: &Schema,
@@ -1059,6 +1056,7 @@ impl AttributeCaches {
         let mut stmt = sqlite
             .prepare(&sql)
             .context(DbErrorKind::CacheUpdateFailed)?;
+        self.reset_attribute(schema, attribute);
         let replacing = true;
         self.repopulate_from_aevt(schema, &mut stmt, args, replacing)
     }
@@ -1431,6 +1429,20 @@ impl Absorb for AttributeCaches {
         self.reverse_cached_attributes
             .extend(other.reverse_cached_attributes);
 
+        // The other's copies are complete, and might be of another kind.
+        for a in other.single_vals.keys().chain(other.multi_vals.keys()) {
+            self.single_vals.remove(a);
+            self.multi_vals.remove(a);
+        }
+        for a in other
+            .unique_reverse
+            .keys()
+            .chain(other.non_unique_reverse.keys())
+        {
+            self.unique_reverse.remove(a);
+            self.non_unique_reverse.remove(a);
+        }
+
         self.single_vals.extend_by_absorbing(other.single_vals);
         self.multi_vals.extend_by_absorbing(other.multi_vals);
         self.unique_reverse
@@ -1726,6 +1738,50 @@ impl InProgressSQLiteAttributeCache {
         self.unregistered_reverse.insert(a);
     }
 
+    /// The caches of attributes whose cardinality or uniqueness differs between the two schemas are
+    /// of the wrong kind: fill caches of the right one.
+    pub fn schema_changed(
+        &mut self,
+        before: &Schema,
+        after: &Schema,
+        sqlite: &rusqlite::Connection,
+    ) -> Result<()> {
+        let cached: BTreeSet<Entid> = self
+            .overlay
+            .forward_cached_attributes
+            .union(&self.overlay.reverse_cached_attributes)
+            .cloned()
+            .collect();
+        let kind = |schema: &Schema, a: Entid| {
+            schema
+                .attribute_for_entid(a)
+                .map(|attribute| (attribute.multival, attribute.unique.is_some()))
+        };
+        for a in cached {
+            if kind(before, a) != kind(after, a) {
+                self.overlay.repopulate(after, sqlite, a)?;
+            }
+        }
+        Ok(())
+    }
+
+    /// Where to look for the values of `attribute`. The overlay's copy is complete if there is one.
+    fn forward(&self, attribute: Entid) -> &AttributeCaches {
+        if self.overlay.holds_forward(attribute) {
+            &self.overlay
+        } else {
+            &self.inner
+        }
+    }
+
+    fn reverse(&self, attribute: Entid) -> &AttributeCaches {
+        if self.overlay.holds_reverse(attribute) {
+            &self.overlay
+        } else {
+            &self.inner
+        }
+    }
+
     pub fn unregister_all(&mut self) {
         self.overlay.unregister_all_attributes();
         self.unregistered_forward
@@ -1755,12 +1811,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the values were deleted, there will be an empty
-            // array in `overlay` -- `Some(vec![])` -- and we won't fall through.
-            // We can safely use `or_else`.
-            self.overlay
+            self.forward(attribute)
                 .get_values_for_entid(schema, attribute, entid)
-                .or_else(|| self.inner.get_values_for_entid(schema, attribute, entid))
         }
     }
 
@@ -1773,16 +1825,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_value_for_entid_if_present(schema, attribute, entid)
-            {
-                Some(present) => present,
-                None => self.inner.get_value_for_entid(schema, attribute, entid),
-            }
+            self.forward(attribute)
+                .get_value_for_entid(schema, attribute, entid)
         }
     }
 
@@ -1833,9 +1877,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            self.overlay
+            self.reverse(attribute)
                 .get_entids_for_value(attribute, value)
-                .or_else(|| self.inner.get_entids_for_value(attribute, value))
         }
     }
 
@@ -1843,16 +1886,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_entid_for_value_if_present(attribute, value)
-            {
-                Some(present) => present,
-                None => self.inner.get_entid_for_value(attribute, value),
-            }
+            self.reverse(attribute)
+                .get_entid_for_value(attribute, value)
         }
     }
 }
@@ -1897,28 +1932,20 @@ impl InProgressSQLiteAttributeCache {
 
         // If we have exclusive write access to the destination cache, update it in place.
         // Because the `Conn` also contains an `Arc`, this will ordinarily never be the case.
-        // In order to hit this code block, we need to eliminate our reference… do so by dropping
+        // In order to avoid a copy, we need to eliminate our reference… do so by dropping
         // our copy of the `Arc`.
         ::std::mem::drop(self.inner);
-        if let Some(dest) = Arc::get_mut(&mut destination.inner) {
-            // Yeah, we unregister in both directions. The only way
-            // `unregistered_forward` won't be the same as `unregistered_reverse` is if
-            // our `overlay` added one direction back in.
-            for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
-                dest.unregister_attribute(*unregistered);
-            }
+        let dest = Arc::make_mut(&mut destination.inner);
 
-            // Now replace each attribute's entry with `overlay`.
-            dest.absorb(self.overlay);
-            return;
+        // Yeah, we unregister in both directions. The only way
+        // `unregistered_forward` won't be the same as `unregistered_reverse` is if
+        // our `overlay` added one direction back in.
+        for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
+            dest.unregister_attribute(*unregistered);
         }
 
-        // If we don't, populate `self.overlay` with whatever we didn't overwrite,
-        // and then shim it into `destination.`
-        // We haven't implemented this because it does not currently occur.
-        // TODO: do this! Then do this:
-        // destination.inner = Arc::new(self.overlay);
-        unimplemented!();
+        // Now replace each attribute's entry with `overlay`.
+        dest.absorb(self.overlay);
     }
 }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index f30ca7b..e403d7b 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -180,6 +180,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         )?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
@@ -211,6 +213,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         )?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
-- 
2.43.0


From 0d6169e3fe55866ec06894f8970c230f6d8091b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 21/52] fix: a query known to have no results is not refused
 for the variables it did not bind

---
 query-algebrizer/src/clauses/mod.rs | 4 ++++
 query-algebrizer/src/lib.rs         | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 09bfe66..89c6fa2 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -1177,6 +1177,10 @@ impl ConjoiningClauses {
                         self.apply_evolved_patterns(known, patterns)?;
                         patterns = VecDeque::with_capacity(remaining);
                     }
+                    if self.is_known_empty() {
+                        // The variables of the patterns that were not applied are unbound.
+                        return Ok(());
+                    }
                     self.apply_clause(known, clause)?;
                 }
             }
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 36cdbe7..7e5629e 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -222,8 +222,8 @@ fn validate_and_simplify_order(
             let mut vars: BTreeSet<Variable> = BTreeSet::default();
 
             for Order(direction, var) in order.into_iter() {
-                // Eliminate any ordering clauses that are bound to fixed values.
-                if cc.bound_value(&var).is_some() {
+                // Eliminate any ordering clauses that are bound to fixed values, or that order nothing.
+                if cc.bound_value(&var).is_some() || cc.is_known_empty() {
                     continue;
                 }
 
-- 
2.43.0


From 49fc6e20d29403938abf31c4026f23e619856a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 22/52] fix: a pattern the cache satisfies is negated all the
 same

---
 query-algebrizer/src/clauses/not.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 8b08f19..2fbd2a7 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -39,6 +39,8 @@ impl ConjoiningClauses {
             }
         }
 
+        // A pattern that the cache satisfies leaves no constraint to negate.
+        let known = Known::for_schema(known.schema);
         template.apply_clauses(known, not_join.clauses)?;
 
         if template.is_known_empty() {
-- 
2.43.0


From b9a8908824ae8abdf9813f05d2cb008f3d3a13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 23/52] fix: a transaction that fails leaves nothing behind in
 the one in progress

---
 db/src/tx.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index c9b6ff8..2a3ad31 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -1029,6 +1029,20 @@ where
     Ok((report, tx.partition_map, next_schema, tx.watcher))
 }
 
+/// Undo what `transact` wrote if it fails: the caller might carry on, and commit.
+fn all_or_nothing<T, F>(conn: &rusqlite::Connection, transact: F) -> Result<T>
+where
+    F: FnOnce() -> Result<T>,
+{
+    conn.execute_batch("SAVEPOINT mentat_transact")?;
+    let result = transact();
+    if result.is_err() {
+        conn.execute_batch("ROLLBACK TO mentat_transact")?;
+    }
+    conn.execute_batch("RELEASE mentat_transact")?;
+    result
+}
+
 /// Transact the given `entities` against the given SQLite `conn`, using the given metadata.
 /// If you want this work to occur inside a SQLite transaction, establish one on the connection
 /// prior to calling this function.
@@ -1048,9 +1062,11 @@ where
     V: TransactableValue,
     W: TransactWatcher,
 {
-    let mut tx = start_tx(conn, partition_map, schema_for_mutation, schema, watcher)?;
-    let report = tx.transact_entities(entities)?;
-    conclude_tx(tx, report)
+    all_or_nothing(conn, || {
+        let mut tx = start_tx(conn, partition_map, schema_for_mutation, schema, watcher)?;
+        let report = tx.transact_entities(entities)?;
+        conclude_tx(tx, report)
+    })
 }
 
 /// Just like `transact`, but accepts lower-level inputs to allow bypassing the parser interface.
@@ -1094,9 +1110,11 @@ where
     I: IntoIterator<Item = TermWithTempIds>,
     W: TransactWatcher,
 {
-    let mut tx = start_tx(conn, partition_map, schema_for_mutation, schema, watcher)?;
-    let report = tx.transact_simple_terms_with_action(terms, tempid_set, action)?;
-    conclude_tx(tx, report)
+    all_or_nothing(conn, || {
+        let mut tx = start_tx(conn, partition_map, schema_for_mutation, schema, watcher)?;
+        let report = tx.transact_simple_terms_with_action(terms, tempid_set, action)?;
+        conclude_tx(tx, report)
+    })
 }
 
 fn extend_aev_trie<'schema, I>(
-- 
2.43.0


From 348bb792d4228034700ab037128ef3ee4de877a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 24/52] fix: doubles that SQLite would misread are bound, not
 printed

---
 sql/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sql/src/lib.rs b/sql/src/lib.rs
index 65dd6bc..34540dd 100644
--- a/sql/src/lib.rs
+++ b/sql/src/lib.rs
@@ -143,12 +143,20 @@ impl QueryBuilder for SQLiteQueryBuilder {
             Boolean(v) => self.push_sql(if *v { "1" } else { "0" }),
             Long(v) => self.push_sql(v.to_string().as_str()),
             Double(OrderedFloat(v)) => {
-                // Rust's floats print without a trailing '.' in some cases.
-                // https://github.com/rust-lang/rust/issues/30967
-                // We format with 'e' -- scientific notation -- so that SQLite treats them as
-                // floats and not integers. This is most noticeable for fulltext scores, which
-                // will currently (2017-06) always be 0, and need to round-trip as doubles.
-                self.push_sql(format!("{:e}", v).as_str());
+                // SQLite reads a literal of few digits as the double it denotes. Others it might
+                // take for a neighbor, and infinities have no literal.
+                let plain = v.to_string();
+                let decimals = plain.find('.').map_or(0, |point| plain.len() - point - 1);
+                if v.abs() < 1e12 && decimals <= 3 {
+                    // Rust's floats print without a trailing '.' in some cases.
+                    // https://github.com/rust-lang/rust/issues/30967
+                    // We format with 'e' -- scientific notation -- so that SQLite treats them as
+                    // floats and not integers. This is most noticeable for fulltext scores, which
+                    // will currently (2017-06) always be 0, and need to round-trip as doubles.
+                    self.push_sql(format!("{:e}", v).as_str());
+                } else {
+                    self.push_static_arg(Rc::new(rusqlite::types::Value::Real(*v)));
+                }
             }
             Instant(dt) => {
                 self.push_sql(format!("{}", dt.to_micros()).as_str()); // TODO: argument instead?
-- 
2.43.0


From 1a475badd17fd9868311d9b1512dbb0a07e79087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 25/52] fix: rewinding a timeline restores the facts and schema
 that stood before

---
 db/src/db.rs        |  72 +++++++++++--------
 db/src/timelines.rs | 172 ++++++++++++++++++++++++--------------------
 db/src/tx.rs        |   2 +-
 3 files changed, 139 insertions(+), 107 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 63f00ff..3704b54 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1187,6 +1187,46 @@ fn row_to_datom_assertion(row: &rusqlite::Row) -> Result<(Entid, Entid, TypedVal
     ))
 }
 
+/// Populate the "idents" materialized view directly from datoms.
+pub(crate) fn materialize_idents(conn: &rusqlite::Connection) -> Result<()> {
+    // Idents is the materialized view of the [entid :db/ident ident] slice of datoms.
+    conn.execute(
+        "DELETE FROM idents".to_string().as_str(),
+        rusqlite::params![],
+    )?;
+    conn.execute(
+        format!(
+            "INSERT INTO idents SELECT e, a, v, value_type_tag FROM datoms WHERE a IN {}",
+            entids::IDENTS_SQL_LIST.as_str()
+        )
+        .as_str(),
+        rusqlite::params![],
+    )?;
+    Ok(())
+}
+
+/// Populate the "schema" materialized view directly from datoms.
+pub(crate) fn materialize_schema(conn: &rusqlite::Connection) -> Result<()> {
+    conn.execute(
+        "DELETE FROM schema".to_string().as_str(),
+        rusqlite::params![],
+    )?;
+    // NB: we're using :db/valueType as a placeholder for the entire schema-defining set.
+    let s = format!(
+        r#"
+        WITH s(e) AS (SELECT e FROM datoms WHERE a = {})
+        INSERT INTO schema
+        SELECT s.e, a, v, value_type_tag
+        FROM datoms, s
+        WHERE s.e = datoms.e AND a IN {}
+    "#,
+        entids::DB_VALUE_TYPE,
+        entids::SCHEMA_SQL_LIST.as_str()
+    );
+    conn.execute(&s, rusqlite::params![])?;
+    Ok(())
+}
+
 /// Update the metadata materialized views based on the given metadata report.
 ///
 /// This updates the "entids", "idents", and "schema" materialized views, copying directly from the
@@ -1204,19 +1244,7 @@ pub fn update_metadata(
     // TODO: consider doing this in fewer SQLite execute() invocations.
     // TODO: use concat! to avoid creating String instances.
     if !metadata_report.idents_altered.is_empty() {
-        // Idents is the materialized view of the [entid :db/ident ident] slice of datoms.
-        conn.execute(
-            "DELETE FROM idents".to_string().as_str(),
-            rusqlite::params![],
-        )?;
-        conn.execute(
-            format!(
-                "INSERT INTO idents SELECT e, a, v, value_type_tag FROM datoms WHERE a IN {}",
-                entids::IDENTS_SQL_LIST.as_str()
-            )
-            .as_str(),
-            rusqlite::params![],
-        )?;
+        materialize_idents(conn)?;
     }
 
     // Populate the materialized view directly from datoms.
@@ -1230,23 +1258,7 @@ pub fn update_metadata(
         || !metadata_report.attributes_altered.is_empty()
         || !metadata_report.idents_altered.is_empty()
     {
-        conn.execute(
-            "DELETE FROM schema".to_string().as_str(),
-            rusqlite::params![],
-        )?;
-        // NB: we're using :db/valueType as a placeholder for the entire schema-defining set.
-        let s = format!(
-            r#"
-            WITH s(e) AS (SELECT e FROM datoms WHERE a = {})
-            INSERT INTO schema
-            SELECT s.e, a, v, value_type_tag
-            FROM datoms, s
-            WHERE s.e = datoms.e AND a IN {}
-        "#,
-            entids::DB_VALUE_TYPE,
-            entids::SCHEMA_SQL_LIST.as_str()
-        );
-        conn.execute(&s, rusqlite::params![])?;
+        materialize_schema(conn)?;
     }
 
     // An attribute is removed with all of its characteristics: what remained would be forgotten
diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 38fb178..a539cbf 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -8,30 +8,24 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
+use std::collections::BTreeSet;
 use std::ops::RangeFrom;
 
 use rusqlite;
 
 use db_traits::errors::{DbErrorKind, Result};
 
-use core_traits::{Entid, KnownEntid, TypedValue};
+use core_traits::{Entid, ValueType};
 
 use mentat_core::Schema;
 
-use edn::InternSet;
-
-use edn::entities::OpType;
-
 use crate::db;
-use crate::db::TypedSQLValue;
 
-use crate::tx::{transact_terms_with_action, TransactorAction};
+use crate::schema::SchemaBuilding;
 
-use crate::types::PartitionMap;
+use crate::tx::all_or_nothing;
 
-use crate::internal_types::{Term, TermWithoutTempIds};
-
-use crate::watcher::NullWatcher;
+use crate::types::PartitionMap;
 
 /// Collects a supplied tx range into an DESC ordered Vec of valid txs,
 /// ensuring they all belong to the same timeline.
@@ -77,8 +71,9 @@ fn move_transactions_to(
     // Move specified transactions over to a specified timeline.
     conn.execute(
         &format!(
-            "UPDATE timelined_transactions SET timeline = {} WHERE tx IN {}",
+            "UPDATE timelined_transactions SET timeline = {} WHERE timeline = {} AND tx IN {}",
             new_timeline,
+            crate::TIMELINE_MAIN,
             crate::repeat_values(tx_ids.len(), 1)
         ),
         &(tx_ids
@@ -89,8 +84,72 @@ fn move_transactions_to(
     Ok(())
 }
 
-fn remove_tx_from_datoms(conn: &rusqlite::Connection, tx_id: Entid) -> Result<()> {
-    conn.execute("DELETE FROM datoms WHERE e = ?", &[&tx_id])?;
+/// Undo what the given transaction did to the datoms: take away what it asserted, and put back what
+/// it retracted, as the transaction before it left it.
+///
+/// How the attributes of what is put back are indexed depends on the schema, which might itself be
+/// rewound: `index_datoms` looks after that.
+fn rewind_datoms(conn: &rusqlite::Connection, tx_id: Entid) -> Result<()> {
+    let params: &[&dyn rusqlite::types::ToSql] = &[&tx_id, &crate::TIMELINE_MAIN];
+    conn.execute(
+        r#"DELETE FROM datoms WHERE rowid IN (
+            SELECT d.rowid
+            FROM timelined_transactions AS t, datoms AS d
+            WHERE t.tx = ?1 AND t.timeline = ?2 AND t.added IS 1 AND
+                  d.e = t.e AND d.a = t.a AND
+                  d.value_type_tag = t.value_type_tag AND d.v = t.v)"#,
+        params,
+    )?;
+    conn.execute(
+        r#"INSERT INTO datoms
+            (e, a, v, tx, value_type_tag, index_avet, index_vaet, index_fulltext, unique_value)
+            SELECT t.e, t.a, t.v,
+                   (SELECT max(p.tx)
+                    FROM timelined_transactions AS p
+                    WHERE p.timeline = ?2 AND p.added IS 1 AND p.tx < ?1 AND
+                          p.e = t.e AND p.a = t.a AND
+                          p.value_type_tag = t.value_type_tag AND p.v = t.v),
+                   t.value_type_tag, 0, 0, 0, 0
+            FROM timelined_transactions AS t
+            WHERE t.tx = ?1 AND t.timeline = ?2 AND t.added IS 0"#,
+        params,
+    )?;
+    Ok(())
+}
+
+/// Index the datoms of the attributes that the given transactions touch, or that the given schemas
+/// disagree about, as the schema they were rewound to asks for.
+fn index_datoms(
+    conn: &rusqlite::Connection,
+    tx_ids: &[Entid],
+    rewound: &Schema,
+    schema: &Schema,
+) -> Result<()> {
+    let mut touched: BTreeSet<Entid> = BTreeSet::new();
+    let mut stmt = conn.prepare(
+        "SELECT DISTINCT a FROM timelined_transactions WHERE tx = ? AND timeline = ?",
+    )?;
+    for tx_id in tx_ids {
+        for a in stmt.query_map(&[tx_id, &crate::TIMELINE_MAIN], |row| row.get(0))? {
+            touched.insert(a?);
+        }
+    }
+    let mut update = conn.prepare(
+        r#"UPDATE datoms
+           SET index_avet = ?, index_vaet = ?, index_fulltext = ?, unique_value = ?
+           WHERE a = ?"#,
+    )?;
+    for (entid, attribute) in &rewound.attribute_map {
+        if touched.contains(entid) || schema.attribute_map.get(entid) != Some(attribute) {
+            update.execute(&[
+                &attribute.index,
+                &(attribute.value_type == ValueType::Ref),
+                &attribute.fulltext,
+                &attribute.unique.is_some(),
+                entid as &dyn rusqlite::types::ToSql,
+            ])?;
+        }
+    }
     Ok(())
 }
 
@@ -102,42 +161,11 @@ fn is_timeline_empty(conn: &rusqlite::Connection, timeline: Entid) -> Result<boo
     Ok(rows.count() == 0)
 }
 
-/// Get terms for tx_id, reversing them in meaning (swap add & retract).
-fn reversed_terms_for(
-    conn: &rusqlite::Connection,
-    tx_id: Entid,
-) -> Result<Vec<TermWithoutTempIds>> {
-    let mut stmt = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC")?;
-    let rows = stmt.query_and_then(
-        &[&tx_id, &crate::TIMELINE_MAIN],
-        |row| -> Result<TermWithoutTempIds> {
-            let op = if row.get(5)? {
-                OpType::Retract
-            } else {
-                OpType::Add
-            };
-            Ok(Term::AddOrRetract(
-                op,
-                KnownEntid(row.get(0)?),
-                row.get(1)?,
-                TypedValue::from_sql_value_pair(row.get(2)?, row.get(3)?)?,
-            ))
-        },
-    )?;
-
-    let mut terms = vec![];
-
-    for row in rows {
-        terms.push(row?);
-    }
-    Ok(terms)
-}
-
 /// Move specified transaction RangeFrom off of main timeline.
 pub fn move_from_main_timeline(
     conn: &rusqlite::Connection,
     schema: &Schema,
-    partition_map: PartitionMap,
+    _partition_map: PartitionMap,
     txs_from: RangeFrom<Entid>,
     new_timeline: Entid,
 ) -> Result<(Option<Schema>, PartitionMap)> {
@@ -156,39 +184,31 @@ pub fn move_from_main_timeline(
 
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
-    let mut last_schema = None;
-    for tx_id in &txs_to_move {
-        let reversed_terms = reversed_terms_for(conn, *tx_id)?;
-
-        // Rewind schema and datoms.
-        let (report, _, new_schema, _) = transact_terms_with_action(
-            conn,
-            partition_map.clone(),
-            schema,
-            schema,
-            NullWatcher(),
-            reversed_terms.into_iter().map(|t| t.rewrap()),
-            InternSet::new(),
-            TransactorAction::Materialize,
+    // Rewind datoms and schema, latest transaction first. This doesn't transact the opposite of each
+    // transaction: what stood before the moved transactions stood legitimately, but there might be
+    // no transaction that is allowed to get back there.
+    all_or_nothing(conn, || {
+        for tx_id in &txs_to_move {
+            rewind_datoms(conn, *tx_id)?;
+        }
+        db::materialize_idents(conn)?;
+        db::materialize_schema(conn)?;
+        let rewound = Schema::from_ident_map_and_attribute_map(
+            db::read_ident_map(conn)?,
+            db::read_attribute_map(conn)?,
         )?;
+        index_datoms(conn, &txs_to_move, &rewound, schema)?;
 
-        // Rewind operation generated a 'tx' and a 'txInstant' assertion, which got
-        // inserted into the 'datoms' table (due to TransactorAction::Materialize).
-        // This is problematic. If we transact a few more times, the transactor will
-        // generate the same 'tx', but with a different 'txInstant'.
-        // The end result will be a transaction which has a phantom
-        // retraction of a txInstant, since transactor operates against the state of
-        // 'datoms', and not against the 'transactions' table.
-        // A quick workaround is to just remove the bad txInstant datom.
-        // See test_clashing_tx_instants test case.
-        remove_tx_from_datoms(conn, report.tx_id)?;
-        last_schema = new_schema;
-    }
-
-    // Move transactions over to the target timeline.
-    move_transactions_to(conn, &txs_to_move, new_timeline)?;
+        // Move transactions over to the target timeline.
+        move_transactions_to(conn, &txs_to_move, new_timeline)?;
 
-    Ok((last_schema, db::read_partition_map(conn)?))
+        let new_schema = if rewound == *schema {
+            None
+        } else {
+            Some(rewound)
+        };
+        Ok((new_schema, db::read_partition_map(conn)?))
+    })
 }
 
 #[cfg(test)]
diff --git a/db/src/tx.rs b/db/src/tx.rs
index 2a3ad31..5008de4 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -1030,7 +1030,7 @@ where
 }
 
 /// Undo what `transact` wrote if it fails: the caller might carry on, and commit.
-fn all_or_nothing<T, F>(conn: &rusqlite::Connection, transact: F) -> Result<T>
+pub(crate) fn all_or_nothing<T, F>(conn: &rusqlite::Connection, transact: F) -> Result<T>
 where
     F: FnOnce() -> Result<T>,
 {
-- 
2.43.0


From 0824dbde25e3691eb216a7691c12b097cbd8e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 26/52] fix: rolling back to a savepoint restores what is kept
 in memory

---
 db/src/cache.rs        |  2 +-
 db/src/tx_observer.rs  |  2 +-
 src/conn.rs            |  1 +
 transaction/src/lib.rs | 42 +++++++++++++++++++++++++++++++++++++++---
 4 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 7ade328..d344eec 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1623,7 +1623,7 @@ impl SQLiteAttributeCache {
 
 /// We maintain a diff on top of the `inner` -- existing -- cache.
 /// That involves tracking unregisterings and registerings.
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 pub struct InProgressSQLiteAttributeCache {
     inner: Arc<AttributeCaches>,
     pub overlay: AttributeCaches,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index ebc42af..5dad666 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -157,7 +157,7 @@ impl Drop for TxObservationService {
     }
 }
 
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub struct InProgressObserverTransactWatcher {
     collected_attributes: AttributeSet,
     pub txes: IndexMap<Entid, AttributeSet>,
diff --git a/src/conn.rs b/src/conn.rs
index 212b3f2..d51fef3 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -258,6 +258,7 @@ impl Conn {
             use_caching: true,
             tx_observer: &self.tx_observer_service,
             tx_observer_watcher: InProgressObserverTransactWatcher::new(),
+            savepoints: vec![],
         })
     }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index e403d7b..bab9e81 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -95,6 +95,16 @@ pub struct InProgress<'a, 'c> {
     pub use_caching: bool,
     pub tx_observer: &'a Mutex<TxObservationService>,
     pub tx_observer_watcher: InProgressObserverTransactWatcher,
+    pub savepoints: Vec<Savepoint>,
+}
+
+/// What an `InProgress` keeps in memory, as it was when a savepoint was established.
+pub struct Savepoint {
+    name: String,
+    partition_map: PartitionMap,
+    schema: Schema,
+    cache: InProgressSQLiteAttributeCache,
+    tx_observer_watcher: InProgressObserverTransactWatcher,
 }
 
 /// Represents an in-progress set of reads to the store. Just like `InProgress`,
@@ -320,23 +330,49 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map[":db.part/tx"].next_entid() - 1
     }
 
-    pub fn savepoint(&self, name: &str) -> Result<()> {
+    pub fn savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("SAVEPOINT {}", name), rusqlite::params![])?;
+        self.savepoints.push(Savepoint {
+            name: name.to_string(),
+            partition_map: self.partition_map.clone(),
+            schema: self.schema.clone(),
+            cache: self.cache.clone(),
+            tx_observer_watcher: self.tx_observer_watcher.clone(),
+        });
         Ok(())
     }
 
-    pub fn rollback_savepoint(&self, name: &str) -> Result<()> {
+    pub fn rollback_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("ROLLBACK TO {}", name), rusqlite::params![])?;
+        // Those established later are gone; this one remains.
+        if let Some(i) = self.savepoint_index(name) {
+            self.savepoints.truncate(i + 1);
+            let savepoint = &self.savepoints[i];
+            self.partition_map = savepoint.partition_map.clone();
+            self.schema = savepoint.schema.clone();
+            self.cache = savepoint.cache.clone();
+            self.tx_observer_watcher = savepoint.tx_observer_watcher.clone();
+        }
         Ok(())
     }
 
-    pub fn release_savepoint(&self, name: &str) -> Result<()> {
+    pub fn release_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("RELEASE {}", name), rusqlite::params![])?;
+        if let Some(i) = self.savepoint_index(name) {
+            self.savepoints.truncate(i);
+        }
         Ok(())
     }
+
+    /// SQLite finds the latest savepoint of the given name, whatever its case.
+    fn savepoint_index(&self, name: &str) -> Option<usize> {
+        self.savepoints
+            .iter()
+            .rposition(|savepoint| savepoint.name.eq_ignore_ascii_case(name))
+    }
 }
 
 impl<'a, 'c> InProgressRead<'a, 'c> {
-- 
2.43.0


From e7a20bd3324cd61f405f81c5a69459985967a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 27/52] fix: registering or unregistering an observer doesn't
 silence the others

---
 db/src/tx_observer.rs | 49 ++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index 5dad666..fd092a6 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,7 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::sync::{Arc, Weak};
+use std::sync::{Arc, RwLock};
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
 
@@ -64,31 +64,42 @@ pub trait Command {
     fn execute(&mut self);
 }
 
+type Observers = Arc<IndexMap<String, Arc<TxObserver>>>;
+
 pub struct TxCommand {
     reports: IndexMap<Entid, AttributeSet>,
-    observers: Weak<IndexMap<String, Arc<TxObserver>>>,
+
+    /// Those who were registered when the reported transactions were committed.
+    observers: Observers,
+
+    /// Those who are registered now.
+    registered: Arc<RwLock<Observers>>,
 }
 
 impl TxCommand {
-    fn new(
-        observers: &Arc<IndexMap<String, Arc<TxObserver>>>,
-        reports: IndexMap<Entid, AttributeSet>,
-    ) -> Self {
+    fn new(registered: &Arc<RwLock<Observers>>, reports: IndexMap<Entid, AttributeSet>) -> Self {
         TxCommand {
             reports,
-            observers: Arc::downgrade(observers),
+            observers: registered.read().unwrap().clone(),
+            registered: registered.clone(),
+        }
+    }
+
+    /// Registering or deregistering one observer doesn't keep the others from being notified.
+    fn is_still_registered(&self, key: &str, observer: &Arc<TxObserver>) -> bool {
+        match self.registered.read().unwrap().get(key) {
+            Some(registered) => Arc::ptr_eq(registered, observer),
+            None => false,
         }
     }
 }
 
 impl Command for TxCommand {
     fn execute(&mut self) {
-        if let Some(observers) = self.observers.upgrade() {
-            for (key, observer) in observers.iter() {
-                let applicable_reports = observer.applicable_reports(&self.reports);
-                if !applicable_reports.is_empty() {
-                    observer.notify(&key, applicable_reports);
-                }
+        for (key, observer) in self.observers.iter() {
+            let applicable_reports = observer.applicable_reports(&self.reports);
+            if !applicable_reports.is_empty() && self.is_still_registered(key, observer) {
+                observer.notify(&key, applicable_reports);
             }
         }
     }
@@ -96,33 +107,33 @@ impl Command for TxCommand {
 
 #[derive(Default)]
 pub struct TxObservationService {
-    observers: Arc<IndexMap<String, Arc<TxObserver>>>,
+    observers: Arc<RwLock<Observers>>,
     executor: Option<Sender<Box<dyn Command + Send>>>,
 }
 
 impl TxObservationService {
     pub fn new() -> Self {
         TxObservationService {
-            observers: Arc::new(IndexMap::new()),
+            observers: Default::default(),
             executor: None,
         }
     }
 
     // For testing purposes
     pub fn is_registered(&self, key: &str) -> bool {
-        self.observers.contains_key(key)
+        self.observers.read().unwrap().contains_key(key)
     }
 
     pub fn register(&mut self, key: String, observer: Arc<TxObserver>) {
-        Arc::make_mut(&mut self.observers).insert(key, observer);
+        Arc::make_mut(&mut self.observers.write().unwrap()).insert(key, observer);
     }
 
     pub fn deregister(&mut self, key: &str) {
-        Arc::make_mut(&mut self.observers).remove(key);
+        Arc::make_mut(&mut self.observers.write().unwrap()).remove(key);
     }
 
     pub fn has_observers(&self) -> bool {
-        !self.observers.is_empty()
+        !self.observers.read().unwrap().is_empty()
     }
 
     pub fn in_progress_did_commit(&mut self, txes: IndexMap<Entid, AttributeSet>) {
-- 
2.43.0


From 086f3b11f07d2d4f395ee00aa8bda41bbc5f0bcd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 28/52] fix: numbers and instants that are out of range are
 parse errors

---
 edn/src/lib.rs | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 2cbb21e..9e6472e 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -92,15 +92,21 @@ peg::parser!(pub grammar parse() for str {
     pub rule raw_bigint() -> BigInt = b:$( sign()? digit()+ ) "N"
         { b.parse::<BigInt>().unwrap() }
     pub rule raw_octalinteger() -> i64 = "0" i:$( octaldigit()+ )
-        { i64::from_str_radix(i, 8).unwrap() }
+        {? i64::from_str_radix(i, 8).map_err(|_| "integer out of range") }
     pub rule raw_hexinteger() -> i64 = "0x" i:$( hex()+ )
-        { i64::from_str_radix(i, 16).unwrap() }
+        {? i64::from_str_radix(i, 16).map_err(|_| "integer out of range") }
     pub rule raw_basedinteger() -> i64 = b:$( validbase() ) "r" i:$( alphanumeric()+ )
-        { i64::from_str_radix(i, b.parse::<u32>().unwrap()).unwrap() }
-    pub rule raw_integer() -> i64 = i:$( sign()? digit()+ ) !("." / (['e' | 'E']))
-        { i.parse::<i64>().unwrap() }
+        {? i64::from_str_radix(i, b.parse::<u32>().unwrap()).map_err(|_| "integer out of range") }
+    // An integer in one of the other notations that is out of range is an error: it must not be
+    // read as the decimal integer it starts with.
+    rule prefixed_integer() = validbase() "r" alphanumeric() / "0x" hex() / "0" octaldigit()
+    pub rule raw_integer() -> i64 = !prefixed_integer() i:$( sign()? digit()+ ) !("." / (['e' | 'E']))
+        {? i.parse::<i64>().map_err(|_| "integer out of range") }
     pub rule raw_float() -> OrderedFloat<f64> = f:$(sign()? digit()+ ("." digit()+)? (['e' | 'E'] sign()? digit()+)?)
-        { OrderedFloat(f.parse::<f64>().unwrap()) }
+        {? match f.parse::<f64>() {
+            Ok(v) if v.is_finite() => Ok(OrderedFloat(v)),
+            _ => Err("float out of range"),
+        } }
 
     pub rule bigint() -> SpannedValue = v:raw_bigint() { SpannedValue::BigInteger(v) }
     pub rule octalinteger() -> SpannedValue = v:raw_octalinteger() { SpannedValue::Integer(v) }
@@ -109,7 +115,9 @@ peg::parser!(pub grammar parse() for str {
     pub rule integer() -> SpannedValue = v:raw_integer() { SpannedValue::Integer(v) }
     pub rule float() -> SpannedValue = v:raw_float() { SpannedValue::Float(v) }
 
-    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / float() )
+    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / noninteger() )
+    // Likewise, an integer that is out of range must not be read as a float.
+    rule noninteger() -> SpannedValue = !prefixed_integer() !(sign()? digit()+ !("." / (['e' | 'E']))) v:float() { v }
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
@@ -146,19 +154,21 @@ peg::parser!(pub grammar parse() for str {
         }
 
     rule inst_micros() -> DateTime<Utc> =
-        "#instmicros" whitespace()+ d:$( digit()+ ) {
-            let micros = d.parse::<i64>().unwrap();
-            let seconds: i64 = micros / 1_000_000;
-            let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
-            Utc.timestamp(seconds, nanos)
+        "#instmicros" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>().ok().and_then(|micros| {
+                let seconds: i64 = micros / 1_000_000;
+                let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
+                Utc.timestamp_opt(seconds, nanos).single()
+            }).ok_or("instant out of range")
         }
 
     rule inst_millis() -> DateTime<Utc> =
-        "#instmillis" whitespace()+ d:$( digit()+ ) {
-            let millis = d.parse::<i64>().unwrap();
-            let seconds: i64 = millis / 1000;
-            let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
-            Utc.timestamp(seconds, nanos)
+        "#instmillis" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>().ok().and_then(|millis| {
+                let seconds: i64 = millis / 1000;
+                let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
+                Utc.timestamp_opt(seconds, nanos).single()
+            }).ok_or("instant out of range")
         }
 
     rule inst() -> SpannedValue = t:(inst_millis() / inst_micros() / inst_string())
@@ -219,7 +229,7 @@ peg::parser!(pub grammar parse() for str {
 
     // Note: It's important that float comes before integer or the parser assumes that floats are integers and fails to parse.
     pub rule value() -> ValueAndSpan =
-        __ start:position!() v:(nil() / nan() / infinity() / boolean() / number() / inst() / uuid() / text() / keyword() / symbol() / list() / vector() / map() / set()) end:position!() __ {
+        __ start:position!() v:(nil() / nan() / infinity() / boolean() / number() / inst() / uuid() / text() / keyword() / nonnumber() / list() / vector() / map() / set()) end:position!() __ {
             ValueAndSpan {
                 inner: v,
                 span: Span::new(start, end)
@@ -227,6 +237,9 @@ peg::parser!(pub grammar parse() for str {
         }
         / expected!("value")
 
+    // A number that is out of range must not be read as a symbol, either.
+    rule nonnumber() -> SpannedValue = !digit() v:symbol() { v }
+
     rule atom() -> ValueAndSpan
         = v:value() {? if v.is_atom() { Ok(v) } else { Err("expected atom") } }
 
-- 
2.43.0


From 7a7cf717dd84b915347e9dfc6b93d51afcd2b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 29/52] fix: nil, true and false are whole words

---
 edn/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 9e6472e..749929b 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -72,15 +72,18 @@ pub type ParseError = peg::error::ParseError<peg::str::LineCol>;
 
 peg::parser!(pub grammar parse() for str {
 
-    pub rule nil() -> SpannedValue = "nil" { SpannedValue::Nil }
+    // `nil`, `true` and `false` are whole words: `nilable` is a symbol.
+    rule word_end() = !(symbol_char_subsequent() / namespace_divider() symbol_char_subsequent() / namespace_separator())
+
+    pub rule nil() -> SpannedValue = "nil" word_end() { SpannedValue::Nil }
     pub rule nan() -> SpannedValue = "#f" whitespace()+ "NaN" { SpannedValue::Float(OrderedFloat(NAN)) }
 
     pub rule infinity() -> SpannedValue = "#f" whitespace()+ s:$(sign()) "Infinity"
         { SpannedValue::Float(OrderedFloat(if s == "+" { INFINITY } else { NEG_INFINITY })) }
 
     pub rule boolean() -> SpannedValue
-        = "true"  { SpannedValue::Boolean(true) }
-        / "false" { SpannedValue::Boolean(false) }
+        = "true" word_end()  { SpannedValue::Boolean(true) }
+        / "false" word_end() { SpannedValue::Boolean(false) }
 
     rule digit() = ['0'..='9']
     rule alphanumeric() = ['0'..='9' | 'a'..='z' | 'A'..='Z']
-- 
2.43.0


From b006dcab59b1922b64472a7637304cabf3c44276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 30/52] fix: a float prints as a float

---
 edn/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index 311b316..0687f81 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -530,7 +530,7 @@ macro_rules! def_common_value_ord {
 }
 
 /// Converts a Value or SpannedValue to string, given a formatter.
-// TODO: Make sure float syntax is correct, handle NaN and escaping.
+// TODO: handle NaN and escaping.
 // See https://github.com/mozilla/mentat/issues/232
 macro_rules! def_common_value_display {
     ( $t:tt, $value:expr, $f:expr ) => {
@@ -544,7 +544,6 @@ macro_rules! def_common_value_display {
                 v.to_rfc3339_opts(SecondsFormat::AutoSi, true)
             ),
             $t::BigInteger(ref v) => write!($f, "{}N", v),
-            // TODO: make sure float syntax is correct.
             $t::Float(ref v) => {
                 if *v == OrderedFloat(f64::INFINITY) {
                     write!($f, "#f +Infinity")
@@ -553,7 +552,8 @@ macro_rules! def_common_value_display {
                 } else if *v == OrderedFloat(f64::NAN) {
                     write!($f, "#f NaN")
                 } else {
-                    write!($f, "{}", v)
+                    // Always with a decimal point or an exponent, so as not to be read as an integer.
+                    write!($f, "{:?}", v.into_inner())
                 }
             }
             // TODO: EDN escaping.
-- 
2.43.0


From 7bf6d2017db878bb7d9e70df481dcd807ad77b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 31/52] fix: strings print with quotes and backslashes escaped

---
 edn/src/pretty_print.rs |  4 ++--
 edn/src/types.rs        | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/edn/src/pretty_print.rs b/edn/src/pretty_print.rs
index 297bafc..b3901ba 100644
--- a/edn/src/pretty_print.rs
+++ b/edn/src/pretty_print.rs
@@ -16,7 +16,7 @@ use pretty;
 use std::borrow::Cow;
 use std::io;
 
-use crate::types::Value;
+use crate::types::{escape_text, Value};
 
 impl Value {
     /// Return a pretty string representation of this `Value`.
@@ -94,7 +94,7 @@ impl Value {
             Value::NamespacedSymbol(ref v) => pp.text(v.namespace()).append("/").append(v.name()),
             Value::PlainSymbol(ref v) => pp.text(v.to_string()),
             Value::Keyword(ref v) => pp.text(v.to_string()),
-            Value::Text(ref v) => pp.text("\"").append(v.as_str()).append("\""),
+            Value::Text(ref v) => pp.text("\"").append(escape_text(v)).append("\""),
             Value::Uuid(ref u) => pp
                 .text("#uuid \"")
                 .append(u.to_hyphenated().to_string())
diff --git a/edn/src/types.rs b/edn/src/types.rs
index 0687f81..37936e9 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -529,9 +529,19 @@ macro_rules! def_common_value_ord {
     };
 }
 
+/// Escapes the characters of a string that cannot stand for themselves between quotes.
+pub(crate) fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        if c == '\\' || c == '"' {
+            escaped.push('\\');
+        }
+        escaped.push(c);
+    }
+    escaped
+}
+
 /// Converts a Value or SpannedValue to string, given a formatter.
-// TODO: handle NaN and escaping.
-// See https://github.com/mozilla/mentat/issues/232
 macro_rules! def_common_value_display {
     ( $t:tt, $value:expr, $f:expr ) => {
         match *$value {
@@ -556,8 +566,7 @@ macro_rules! def_common_value_display {
                     write!($f, "{:?}", v.into_inner())
                 }
             }
-            // TODO: EDN escaping.
-            $t::Text(ref v) => write!($f, "\"{}\"", v),
+            $t::Text(ref v) => write!($f, "\"{}\"", escape_text(v)),
             $t::Uuid(ref u) => write!($f, "#uuid \"{}\"", u.to_hyphenated().to_string()),
             $t::PlainSymbol(ref v) => v.fmt($f),
             $t::NamespacedSymbol(ref v) => v.fmt($f),
-- 
2.43.0


From 5a492b1aab652c4293d6b728d17d5d3543238630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 32/52] fix: a keyword named _ is not the reverse of an unnamed
 one

---
 edn/src/namespaceable_name.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edn/src/namespaceable_name.rs b/edn/src/namespaceable_name.rs
index 3c8e52a..8ccc654 100644
--- a/edn/src/namespaceable_name.rs
+++ b/edn/src/namespaceable_name.rs
@@ -105,9 +105,10 @@ impl NamespaceableName {
         self.boundary > 0
     }
 
+    // A name that is only an underscore is the reverse of nothing.
     #[inline]
     pub fn is_backward(&self) -> bool {
-        self.name().starts_with('_')
+        self.name().len() > 1 && self.name().starts_with('_')
     }
 
     #[inline]
@@ -118,7 +119,7 @@ impl NamespaceableName {
     pub fn to_reversed(&self) -> NamespaceableName {
         let name = self.name();
 
-        if name.starts_with('_') {
+        if self.is_backward() {
             Self::new(self.namespace(), &name[1..])
         } else {
             Self::new(self.namespace(), &format!("_{}", name))
-- 
2.43.0


From 0616f7b37e0593e49c35870b02aba6429c941c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 33/52] fix: nil, true and false end at a dot that starts no
 namespace

---
 edn/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 749929b..d9238db 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -73,7 +73,7 @@ pub type ParseError = peg::error::ParseError<peg::str::LineCol>;
 peg::parser!(pub grammar parse() for str {
 
     // `nil`, `true` and `false` are whole words: `nilable` is a symbol.
-    rule word_end() = !(symbol_char_subsequent() / namespace_divider() symbol_char_subsequent() / namespace_separator())
+    rule word_end() = !(symbol_char_subsequent() / (namespace_divider() symbol_char_subsequent()+)* namespace_separator())
 
     pub rule nil() -> SpannedValue = "nil" word_end() { SpannedValue::Nil }
     pub rule nan() -> SpannedValue = "#f" whitespace()+ "NaN" { SpannedValue::Float(OrderedFloat(NAN)) }
-- 
2.43.0


From 9a5ec68974a25d107709a2e95e3290274e3c2e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 34/52] fix: aggregates of a bound variable are computed over
 the rows

---
 query-projector-traits/aggregates.rs | 31 ++++++++--------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index e0b5831..17e496a 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -150,14 +150,6 @@ impl SimpleAggregate {
         format!("({} {})", self.op.to_sql(), self.var.name())
     }
 
-    pub fn use_static_value(&self) -> bool {
-        use self::SimpleAggregationOp::*;
-        match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
-        }
-    }
-
     /// Return `true` if this aggregate can be `NULL` over 0 rows.
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
@@ -195,21 +187,16 @@ pub fn projected_column_for_simple_aggregate(
     let known_types = cc.known_type_set(&simple.var);
     let return_type = simple.op.is_applicable_to_types(known_types)?;
     let projected_column_or_expression = if let Some(value) = cc.bound_value(&simple.var) {
-        // Oh, we already know the value!
-        if simple.use_static_value() {
-            // We can statically compute the aggregate result for some operators -- not count or
-            // sum, but avg/max/min are OK.
-            ColumnOrExpression::Value(value)
+        // Oh, we already know the value! The aggregate is still computed over the rows: how many
+        // there are -- and whether there are any -- isn't known yet, and `avg` isn't the value itself.
+        let expression = Expression::Unary {
+            sql_op: simple.op.to_sql(),
+            arg: ColumnOrExpression::Value(value),
+        };
+        if simple.is_nullable() {
+            ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
         } else {
-            let expression = Expression::Unary {
-                sql_op: simple.op.to_sql(),
-                arg: ColumnOrExpression::Value(value),
-            };
-            if simple.is_nullable() {
-                ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-            } else {
-                ColumnOrExpression::Expression(Box::new(expression), return_type)
-            }
+            ColumnOrExpression::Expression(Box::new(expression), return_type)
         }
     } else {
         // The common case: the values are bound during execution.
-- 
2.43.0


From dfa768c9a0ccee23acfc3a5c8c1caa38f52cf90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 35/52] fix: ordering by (the ?x) does not group by it

---
 query-projector/src/project.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index 4b036a0..d464dc8 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -376,6 +376,11 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
             continue;
         }
 
+        // `(the ?x)` is projected already, and ordering by it must not group by it.
+        if corresponded_variables.contains(var) {
+            continue;
+        }
+
         // If it's a fixed value, we need do nothing further.
         if query.cc.is_value_bound(&var) {
             continue;
-- 
2.43.0


From 75cf09adb2d8c1addea3adb8baf0b70023f9d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 36/52] fix: an error while stepping a query is returned, not a
 panic

---
 query-projector/src/projectors/pull_two_stage.rs | 8 ++++----
 query-projector/src/projectors/simple.rs         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index f286232..4f5bf07 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -69,7 +69,7 @@ impl Projector for ScalarTwoStagePullProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         // Scalar is pretty straightforward -- zero or one entity, do the pull directly.
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let entity: Entid = row.get(0).unwrap(); // This will always be 0 and a ref.
             let bindings = self.puller.pull(schema, sqlite, once(entity))?;
@@ -153,7 +153,7 @@ impl Projector for TupleTwoStagePullProjector {
         sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
 
             // Keeping the compiler happy.
@@ -280,7 +280,7 @@ impl Projector for RelTwoStagePullProjector {
         let mut pull_consumers = pull_consumers?;
 
         // Collect the usual bindings and accumulate entity IDs for pull.
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             for p in pull_consumers.iter_mut() {
                 p.collect_entity(&row);
@@ -347,7 +347,7 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             pull_consumer.collect_entity(&row);
         }
diff --git a/query-projector/src/projectors/simple.rs b/query-projector/src/projectors/simple.rs
index 213d75a..7e43cc7 100644
--- a/query-projector/src/projectors/simple.rs
+++ b/query-projector/src/projectors/simple.rs
@@ -50,7 +50,7 @@ impl Projector for ScalarProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             QueryResults::Scalar(Some(binding))
@@ -122,7 +122,7 @@ impl Projector for TupleProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let bindings = self.collect_bindings(row)?;
             QueryResults::Tuple(Some(bindings))
@@ -207,7 +207,7 @@ impl Projector for RelProjector {
         let width = self.len;
         let mut values: Vec<_> = Vec::with_capacity(5 * width);
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             self.collect_bindings_into(row, &mut values)?;
         }
@@ -263,7 +263,7 @@ impl Projector for CollProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         let mut out: Vec<_> = vec![];
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             out.push(binding);
-- 
2.43.0


From c6225fddd581a9fb57cbbd4f0255d599b3ab74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 37/52] fix: an aggregate query with a bound grouping variable
 has no row when nothing matches

---
 query-projector/src/project.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index d464dc8..755e4ed 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -446,6 +446,12 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
 
     for (var, group) in vars.chain(corresponds) {
         if query.cc.is_value_bound(&var) {
+            // The value is projected, and never needs a type. But we must still group by it: with no
+            // bindings there are no groups, whereas with no GROUP BY there is always one.
+            if group {
+                let name = VariableColumn::Variable(var.clone()).column_name();
+                group_by.push(GroupBy::ProjectedColumn(name));
+            }
             continue;
         }
 
-- 
2.43.0


From 752f44645e8323381733ccd73101a9d5295fae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 38/52] fix: a sum over no rows is no row, not an error

---
 query-projector-traits/aggregates.rs | 4 ++--
 query-sql/src/lib.rs                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index 17e496a..3402f0b 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -154,8 +154,8 @@ impl SimpleAggregate {
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 }
diff --git a/query-sql/src/lib.rs b/query-sql/src/lib.rs
index 27e69da..f50fdf9 100644
--- a/query-sql/src/lib.rs
+++ b/query-sql/src/lib.rs
@@ -48,7 +48,7 @@ pub enum ColumnOrExpression {
     Integer(i32), // We use these for type codes etc.
     Long(i64),
     Value(TypedValue),
-    // Some aggregates (`min`, `max`, `avg`) can be over 0 rows, and therefore can be `NULL`; that
+    // Some aggregates (`min`, `max`, `avg`, `sum`) can be over 0 rows, and therefore can be `NULL`; that
     // needs special treatment.
     NullableAggregate(Box<Expression>, ValueType), // Track the return type.
     Expression(Box<Expression>, ValueType),        // Track the return type.
-- 
2.43.0


From 0c240b2024ddfe3879d69a9fb325801a186ff66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 39/52] fix: a query of constants still needs its tables to
 have rows

---
 query-algebrizer/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 7e5629e..cc9fbc6 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -183,7 +183,8 @@ impl AlgebraicQuery {
     /// Return true if every variable in the find spec is fully bound to a single value,
     /// and evaluating the query doesn't require running SQL.
     pub fn is_fully_unit_bound(&self) -> bool {
-        self.cc.wheres.is_empty() && self.is_fully_bound()
+        // A table without constraints -- the branches of an `or`, say -- can still be empty.
+        self.cc.from.is_empty() && self.cc.wheres.is_empty() && self.is_fully_bound()
     }
 
     /// Return a set of the input variables mentioned in the `:in` clause that have not yet been
-- 
2.43.0


From c42658de4e23c2e6ccaf17a0a64fa37fa2c200b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 40/52] fix: pulled collections come in the order of the query

---
 query-projector/src/pull.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/query-projector/src/pull.rs b/query-projector/src/pull.rs
index 0094ae6..1dcab80 100644
--- a/query-projector/src/pull.rs
+++ b/query-projector/src/pull.rs
@@ -51,6 +51,8 @@ pub(crate) struct PullConsumer<'schema> {
     schema: &'schema Schema,
     puller: Puller,
     entities: BTreeSet<Entid>,
+    // The entities in the order in which the rows first mention them.
+    ordered: Vec<Entid>,
     results: BTreeMap<Entid, ValueRc<StructuredMap>>,
 }
 
@@ -65,6 +67,7 @@ impl<'schema> PullConsumer<'schema> {
             schema,
             puller,
             entities: Default::default(),
+            ordered: Default::default(),
             results: Default::default(),
         }
     }
@@ -91,7 +94,9 @@ impl<'schema> PullConsumer<'schema> {
 
     pub(crate) fn collect_entity<'a>(&mut self, row: &rusqlite::Row<'a>) -> Entid {
         let entity = row.get(self.indices.sql_index).unwrap();
-        self.entities.insert(entity);
+        if self.entities.insert(entity) {
+            self.ordered.push(entity);
+        }
         entity
     }
 
@@ -114,6 +119,10 @@ impl<'schema> PullConsumer<'schema> {
 
     // TODO: do we need to include empty maps for entities that didn't match any pull?
     pub(crate) fn into_coll_results(self) -> Vec<Binding> {
-        self.results.values().cloned().map(Binding::Map).collect()
+        self.ordered
+            .iter()
+            .filter_map(|e| self.results.get(e).cloned())
+            .map(Binding::Map)
+            .collect()
     }
 }
-- 
2.43.0


From 953e65263dbefb8b327b78cad301ea3426d030dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 41/52] fix: an or-join's local variables say nothing about
 outer variables of the same name

---
 query-algebrizer/src/clauses/or.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1376fa6..bcc439a 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -668,6 +668,12 @@ impl ConjoiningClauses {
             for cc in clauses {
                 union_types(&mut additional_types, &cc.known_types);
             }
+            // Variables that aren't projected are local to the arms: they say nothing about variables
+            // of the same name outside.
+            let additional_types = additional_types
+                .into_iter()
+                .filter(|(var, _)| projection.contains(var))
+                .collect();
             self.broaden_types(additional_types);
         }
 
-- 
2.43.0


From afaf003f75bbae1df99fd65f137cbd60158dcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 42/52] fix: a pull wildcard does not hide the attributes after
 it, nor an alias another

---
 query-pull/src/lib.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/query-pull/src/lib.rs b/query-pull/src/lib.rs
index 138d2a5..b002b61 100644
--- a/query-pull/src/lib.rs
+++ b/query-pull/src/lib.rs
@@ -128,7 +128,7 @@ where
 pub struct Puller {
     // The domain of this map is the set of attributes to fetch.
     // The range is the set of aliases to use in the output.
-    attributes: BTreeMap<Entid, ValueRc<Keyword>>,
+    attributes: BTreeMap<Entid, BTreeSet<ValueRc<Keyword>>>,
     attribute_spec: cache::AttributeSpec,
 
     // If this is set, each pulled entity is contributed to its own output map, labeled with this
@@ -152,7 +152,8 @@ impl Puller {
                 .ok_or_else(|| PullError::UnnamedAttribute(*i))
         };
 
-        let mut names: BTreeMap<Entid, ValueRc<Keyword>> = Default::default();
+        let mut names: BTreeMap<Entid, BTreeSet<ValueRc<Keyword>>> = Default::default();
+        let mut wildcard = false;
         let mut attrs: BTreeSet<Entid> = Default::default();
         let db_id = ::std::rc::Rc::new(Keyword::namespaced("db", "id"));
         let mut db_id_alias = None;
@@ -160,12 +161,7 @@ impl Puller {
         for attr in attributes.iter() {
             match attr {
                 PullAttributeSpec::Wildcard => {
-                    let attribute_ids = schema.attribute_map.keys();
-                    for id in attribute_ids {
-                        names.insert(*id, lookup_name(id)?);
-                        attrs.insert(*id);
-                    }
-                    break;
+                    wildcard = true;
                 }
                 PullAttributeSpec::Attribute(NamedPullAttribute {
                     ref attribute,
@@ -184,13 +180,13 @@ impl Puller {
                         PullConcreteAttribute::Ident(ref i) => {
                             if let Some(entid) = schema.get_entid(i) {
                                 let name = alias.unwrap_or_else(|| i.to_value_rc());
-                                names.insert(entid.into(), name);
+                                names.entry(entid.into()).or_default().insert(name);
                                 attrs.insert(entid.into());
                             }
                         }
                         PullConcreteAttribute::Entid(ref entid) => {
                             let name = alias.map(Ok).unwrap_or_else(|| lookup_name(entid))?;
-                            names.insert(*entid, name);
+                            names.entry(*entid).or_default().insert(name);
                             attrs.insert(*entid);
                         }
                     }
@@ -198,6 +194,16 @@ impl Puller {
             }
         }
 
+        // A wildcard adds every attribute that isn't mentioned on its own.
+        if wildcard {
+            for id in schema.attribute_map.keys() {
+                if !names.contains_key(id) {
+                    names.entry(*id).or_default().insert(lookup_name(id)?);
+                    attrs.insert(*id);
+                }
+            }
+        }
+
         Ok(Puller {
             attributes: names,
             attribute_spec: cache::AttributeSpec::specified(&attrs, schema),
@@ -248,10 +254,10 @@ impl Puller {
             }
         }
 
-        for (name, cache) in self.attributes.iter().filter_map(|(a, name)| {
+        for (names, cache) in self.attributes.iter().filter_map(|(a, names)| {
             caches
                 .forward_attribute_cache_for_attribute(schema, *a)
-                .map(|cache| (name.clone(), cache))
+                .map(|cache| (names, cache))
         }) {
             for e in entities.iter() {
                 if let Some(binding) = cache.binding_for_e(*e) {
@@ -263,7 +269,9 @@ impl Puller {
                     // We can unwrap here because we created all of these maps…
                     let m = ValueRc::get_mut(r).unwrap();
 
-                    m.insert(name.clone(), binding);
+                    for name in names {
+                        m.insert(name.clone(), binding.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From 5f803893356b1a9353f5c186af798b46903f5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 43/52] fix: :db/noHistory is part of an attribute's schema

---
 db/src/entids.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/entids.rs b/db/src/entids.rs
index 6308926..3c07974 100644
--- a/db/src/entids.rs
+++ b/db/src/entids.rs
@@ -72,6 +72,7 @@ pub fn might_update_metadata(attribute: Entid) -> bool {
         DB_FULLTEXT |
         DB_INDEX |
         DB_IS_COMPONENT |
+        DB_NO_HISTORY |
         DB_UNIQUE |
         DB_VALUE_TYPE
     )
@@ -86,6 +87,7 @@ pub fn is_a_schema_attribute(attribute: Entid) -> bool {
             | DB_FULLTEXT
             | DB_INDEX
             | DB_IS_COMPONENT
+            | DB_NO_HISTORY
             | DB_UNIQUE
             | DB_VALUE_TYPE
     )
@@ -100,23 +102,25 @@ lazy_static! {
 
     /// Attributes that are "schema related".  These might change the "schema" materialized view.
     pub static ref SCHEMA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
 
     /// Attributes that are "metadata" related.  These might change one of the materialized views.
     pub static ref METADATA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_IDENT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
-- 
2.43.0


From b270cf8ae223b94d8969cff42dedbea1d2c27e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 44/52] fix: a vocabulary's definition takes uniqueness from
 any attribute it finds

---
 src/vocabulary.rs | 37 ++++++-------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index 782f78c..79feb1a 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -349,10 +349,9 @@ impl Definition {
         &'s self,
         attributes: &[R],
         via: &T,
-        diff: Option<BTreeMap<Keyword, Attribute>>,
     ) -> Result<Terms>
     where
-        T: HasCoreSchema,
+        T: HasSchema,
         R: ::std::borrow::Borrow<(Keyword, Attribute)>,
     {
         // The attributes we'll need to describe this vocabulary.
@@ -430,11 +429,8 @@ impl Definition {
                 };
                 builder.add(tempid.clone(), a_unique, uu)?;
             } else {
-                let existing_unique = if let Some(ref diff) = diff {
-                    diff.get(kw).and_then(|a| a.unique)
-                } else {
-                    None
-                };
+                // The attribute might exist already, whether or not this vocabulary listed it.
+                let existing_unique = via.attribute_for_ident(kw).and_then(|(a, _)| a.unique);
                 match existing_unique {
                     None => {
                         // Nothing to do.
@@ -452,33 +448,12 @@ impl Definition {
         builder.build().map_err(|e| e)
     }
 
-    /// Return a sequence of terms that describes this vocabulary definition and its attributes.
-    fn description_diff<T>(&self, via: &T, from: &Vocabulary) -> Result<Terms>
-    where
-        T: HasSchema,
-    {
-        let relevant = self
-            .attributes
-            .iter()
-            .filter_map(|&(ref keyword, _)|
-                               // Look up the keyword to see if it's currently in use.
-                               via.get_entid(keyword)
-
-                               // If so, map it to the existing attribute.
-                                  .and_then(|e| from.find(e).cloned())
-
-                               // Collect enough that we can do lookups.
-                                  .map(|e| (keyword.clone(), e)))
-            .collect();
-        self.description_for_attributes(self.attributes.as_slice(), via, Some(relevant))
-    }
-
     /// Return a sequence of terms that describes this vocabulary definition and its attributes.
     fn description<T>(&self, via: &T) -> Result<Terms>
     where
         T: HasSchema,
     {
-        self.description_for_attributes(self.attributes.as_slice(), via, None)
+        self.description_for_attributes(self.attributes.as_slice(), via)
     }
 }
 
@@ -859,7 +834,7 @@ impl<'a, 'c> VocabularyMechanics for InProgress<'a, 'c> {
         definition: &'definition Definition,
         attributes: Vec<&'definition (Keyword, Attribute)>,
     ) -> Result<VocabularyOutcome> {
-        let (terms, _tempids) = definition.description_for_attributes(&attributes, self, None)?;
+        let (terms, _tempids) = definition.description_for_attributes(&attributes, self)?;
         self.transact_entities(terms)?;
         Ok(VocabularyOutcome::InstalledMissingAttributes)
     }
@@ -879,7 +854,7 @@ impl<'a, 'c> VocabularyMechanics for InProgress<'a, 'c> {
 
         // TODO: don't do work for attributes that are unchanged. Here we rely on the transactor
         // to elide duplicate datoms.
-        let (terms, _tempids) = definition.description_diff(self, &from_version)?;
+        let (terms, _tempids) = definition.description(self)?;
         self.transact_entities(terms)?;
 
         definition.post(self, &from_version)?;
-- 
2.43.0


From 54d3644e93586cce95c17b75d279d59d8080f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 45/52] fix: a vocabulary version that can be stored can be
 read

---
 src/vocabulary.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index 79feb1a..eb826c8 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -511,6 +511,10 @@ pub trait VersionedStore: HasVocabularies + HasSchema {
         &self,
         definition: &'definition Definition,
     ) -> Result<VocabularyCheck<'definition>> {
+        if definition.version == 0 {
+            // A vocabulary stored with this version could not be read.
+            bail!(MentatError::InvalidVocabularyVersion);
+        }
         if let Some(vocabulary) = self.read_vocabulary_named(&definition.name)? {
             // The name is present.
             // Check the version.
@@ -871,7 +875,7 @@ where
             match self.lookup_value_for_attribute(entid, &DB_SCHEMA_VERSION)? {
                 None => Ok(None),
                 Some(TypedValue::Long(version))
-                    if version > 0 && (version < u32::max_value() as i64) =>
+                    if version > 0 && (version <= u32::max_value() as i64) =>
                 {
                     let version = version as u32;
                     let attributes = self
@@ -912,7 +916,7 @@ where
                 (
                     &Binding::Scalar(TypedValue::Ref(vocab)),
                     &Binding::Scalar(TypedValue::Long(version)),
-                ) if version > 0 && (version < u32::max_value() as i64) => {
+                ) if version > 0 && (version <= u32::max_value() as i64) => {
                     Some((vocab, version as u32))
                 }
                 (_, _) => None,
-- 
2.43.0


From a6d81a23511f867df608499a0202dec6c1a98a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 46/52] fix: an or whose variables are all bound no longer
 panics

---
 query-projector/src/translate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/query-projector/src/translate.rs b/query-projector/src/translate.rs
index 5c740d0..16dc245 100644
--- a/query-projector/src/translate.rs
+++ b/query-projector/src/translate.rs
@@ -310,7 +310,12 @@ fn table_for_computed(computed: ComputedTable, alias: TableAlias) -> TableOrSubq
 
                         // Each arm simply turns into a subquery.
                         // The SQL translation will stuff "UNION" between each arm.
-                        let projection = Projection::Columns(columns);
+                        // If every variable is bound, all that matters is whether there are rows.
+                        let projection = if columns.is_empty() {
+                            Projection::One
+                        } else {
+                            Projection::Columns(columns)
+                        };
                         cc_to_select_query(projection, cc, false, vec![], None, Limit::None)
                   }).collect(),
                 alias)
-- 
2.43.0


From eadb0ff06b8db8a7e7ec503132cc664c39d510fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 47/52] fix: variables named alike have columns of their own in
 SQL

SQLite disregards the case of column names, so ordering by ?X sorted by ?x if both were found; and
a variable ?x_value_type_tag had the column of the type tag of ?x.
---
 query-algebrizer/src/types.rs | 26 ++++++++++++++++++++++++--
 query-sql/src/lib.rs          | 12 ++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index bde772a..8a338c8 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -151,14 +151,36 @@ impl ColumnName for DatomsColumn {
 }
 
 impl ColumnName for VariableColumn {
+    /// Different variables have different columns, and none the column of another's type tag, even
+    /// though SQLite disregards the case of a name: a variable whose name alone wouldn't ensure that
+    /// has the positions of its capitals appended, after a space.
     fn column_name(&self) -> String {
         match self {
-            VariableColumn::Variable(ref v) => v.to_string(),
-            VariableColumn::VariableTypeTag(ref v) => format!("{}_value_type_tag", v.as_str()),
+            VariableColumn::Variable(ref v) => {
+                let name = v.as_str();
+                let is_capital = |c: char| c.is_ascii_uppercase();
+                if name.contains(is_capital)
+                    || name.contains(' ')
+                    || name.ends_with(TYPE_TAG_SUFFIX)
+                {
+                    let positions: Vec<String> = name
+                        .match_indices(is_capital)
+                        .map(|(i, _)| i.to_string())
+                        .collect();
+                    format!("{} {}", name, positions.join("."))
+                } else {
+                    name.to_string()
+                }
+            }
+            VariableColumn::VariableTypeTag(ref v) => {
+                VariableColumn::Variable(v.clone()).column_name() + TYPE_TAG_SUFFIX
+            }
         }
     }
 }
 
+const TYPE_TAG_SUFFIX: &str = "_value_type_tag";
+
 impl Debug for VariableColumn {
     fn fmt(&self, f: &mut Formatter) -> ::std::fmt::Result {
         match self {
diff --git a/query-sql/src/lib.rs b/query-sql/src/lib.rs
index f50fdf9..fbc8404 100644
--- a/query-sql/src/lib.rs
+++ b/query-sql/src/lib.rs
@@ -25,7 +25,8 @@ use mentat_core::SQLTypeAffinity;
 use edn::query::{Direction, Limit, Variable};
 
 use mentat_query_algebrizer::{
-    Column, OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias, VariableColumn,
+    Column, ColumnName, OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias,
+    VariableColumn,
 };
 
 use sql_traits::errors::{BuildQueryResult, SQLError};
@@ -216,12 +217,7 @@ pub struct SelectQuery {
 }
 
 fn push_variable_column(qb: &mut dyn QueryBuilder, vc: &VariableColumn) -> BuildQueryResult {
-    match vc {
-        VariableColumn::Variable(ref v) => qb.push_identifier(v.as_str()),
-        VariableColumn::VariableTypeTag(ref v) => {
-            qb.push_identifier(format!("{}_value_type_tag", v.name()).as_str())
-        }
-    }
+    qb.push_identifier(vc.column_name().as_str())
 }
 
 fn push_column(qb: &mut dyn QueryBuilder, col: &Column) -> BuildQueryResult {
@@ -495,7 +491,7 @@ impl QueryFragment for Values {
                 names,
                 {
                     out.push_sql("0 AS ");
-                    out.push_identifier(alias.as_str())?
+                    push_variable_column(out, &VariableColumn::Variable(alias.clone()))?
                 },
                 { out.push_sql(", ") }
             );
-- 
2.43.0


From 7c78766734c020459bdc321aff8e68eb4129d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 48/52] fix: a bound parameter cannot take the name of a
 generated one

---
 sql/src/lib.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sql/src/lib.rs b/sql/src/lib.rs
index 34540dd..c1ef1d6 100644
--- a/sql/src/lib.rs
+++ b/sql/src/lib.rs
@@ -206,17 +206,15 @@ impl QueryBuilder for SQLiteQueryBuilder {
             return Err(SQLError::InvalidParameterName(name.to_string()));
         }
 
-        if name.starts_with(self.arg_prefix.as_str())
-            && name
-                .chars()
-                .skip(self.arg_prefix.len())
-                .all(char::is_numeric)
-        {
-            return Err(SQLError::BindParamCouldBeGenerated(name.to_string()));
+        let param = format!("${}", name);
+        if param.starts_with(self.arg_prefix.as_str()) {
+            let counter = &param[self.arg_prefix.len()..];
+            if !counter.is_empty() && counter.chars().all(char::is_numeric) {
+                return Err(SQLError::BindParamCouldBeGenerated(name.to_string()));
+            }
         }
 
-        self.push_sql("$");
-        self.push_sql(name);
+        self.push_sql(&param);
         Ok(())
     }
 
-- 
2.43.0


From 55ce68d202c24bd7a9d598e8aa08f006a2deb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 49/52] fix: a transaction may fill a whole chunk of bound
 variables

The limit is the greatest number of variables a statement may have, and the
chunks are as large as that allows: with a limit that six divides, like the
usual 32766, any transaction of 5461 datoms or more panicked.
---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 3704b54..2ecd4fb 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -793,7 +793,7 @@ impl MentatStoring for rusqlite::Connection {
             // querying against `all_datoms`.  We know all the attributes, and in the common case,
             // where most unique attributes will not be fulltext-indexed, we'll be querying just
             // `datoms`, which will be much faster.ˇ
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
 
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = format!("WITH t(search_id, a, v, value_type_tag) AS (VALUES {}) SELECT t.search_id, d.e \
@@ -935,7 +935,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = if search_type == SearchType::Exact {
                 format!("INSERT INTO temp.exact_searches (e0, a0, v0, value_type_tag0, added0, flags0) VALUES {}", values)
@@ -1056,7 +1056,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * datom_count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, datom_count, max_vars);
+            assert!(bindings_per_statement * datom_count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, datom_count, max_vars);
             let inner = "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".to_string();
             // Like "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?), (?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".
             let fts_values: String = repeat(inner).take(datom_count).join(", ");
-- 
2.43.0


From e4260ee337ab727e09d55c609a6bef4591791fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 50/52] fix: a chunk of fulltext datoms need not have a new
 string

When all the strings of a chunk had been seen in previous chunks of the same
transaction, there was nothing to insert, and building that insertion panicked.
---
 db/src/db.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 2ecd4fb..3edc0ef 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1035,12 +1035,15 @@ impl MentatStoring for rusqlite::Connection {
                      }).collect();
 
             // TODO: make this maximally efficient. It's not terribly inefficient right now.
-            let fts_values: String = repeat_values(2, string_count);
-            let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
-
-            // TODO: consider ensuring we inserted the expected number of rows.
-            let mut stmt = self.prepare_cached(fts_s.as_str())?;
-            stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            // There is nothing to insert if previous chunks have already inserted all of the strings.
+            if string_count > 0 {
+                let fts_values: String = repeat_values(2, string_count);
+                let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
+
+                // TODO: consider ensuring we inserted the expected number of rows.
+                let mut stmt = self.prepare_cached(fts_s.as_str())?;
+                stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            }
 
             // Second, insert searches.
             // `params` reference computed values in `block`.
-- 
2.43.0


From 9ce98e47b3dfe27ffc27f301b87271d99335a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:32 +0000
Subject: [PATCH 51/52] fix: removing a cached attribute's definition while
 facts use it never came back

---
 db/src/cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index d344eec..687fb76 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -951,6 +951,9 @@ impl AttributeCaches {
                         unreachable!(); // Must be cached in at least one direction!
                     }
                 }
+            } else {
+                // The attribute was removed, but not the datoms that use it.
+                with_aev_iter(a, iter, |_, _| ());
             }
         }
     }
-- 
2.43.0


From 24365a44eee839bfabc54f5d83f08976e56fe020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:32 +0000
Subject: [PATCH 52/52] fix: instants are cut to microseconds wherever they
 become values

---
 db/src/db.rs                            | 2 +-
 query-algebrizer/src/clauses/convert.rs | 2 +-
 query-algebrizer/src/clauses/pattern.rs | 2 +-
 query-algebrizer/src/clauses/resolve.rs | 4 ++--
 src/query_builder.rs                    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 3edc0ef..e060735 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -449,7 +449,7 @@ impl TypedSQLValue for TypedValue {
     fn from_edn_value(value: &Value) -> Option<TypedValue> {
         match value {
             Value::Boolean(x) => Some(TypedValue::Boolean(*x)),
-            Value::Instant(x) => Some(TypedValue::Instant(*x)),
+            Value::Instant(x) => Some((*x).into()),
             Value::Integer(x) => Some(TypedValue::Long(*x)),
             Value::Uuid(x) => Some(TypedValue::Uuid(*x)),
             Value::Float(ref x) => Some(TypedValue::Double(*x)),
diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 219eb4b..8db5d10 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -216,7 +216,7 @@ impl ConjoiningClauses {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Boolean, TypedValue::Boolean)
             }
             FnArg::Constant(NonIntegerConstant::Instant(x)) => {
-                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::Instant)
+                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::from)
             }
             FnArg::Constant(NonIntegerConstant::Uuid(x)) => {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Uuid, TypedValue::Uuid)
diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 6412c54..6c367dc 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -33,7 +33,7 @@ pub fn into_typed_value(nic: NonIntegerConstant) -> TypedValue {
         NonIntegerConstant::Boolean(v) => TypedValue::Boolean(v),
         NonIntegerConstant::Float(v) => TypedValue::Double(v),
         NonIntegerConstant::Text(v) => v.into(),
-        NonIntegerConstant::Instant(v) => TypedValue::Instant(v),
+        NonIntegerConstant::Instant(v) => v.into(),
         NonIntegerConstant::Uuid(v) => TypedValue::Uuid(v),
     }
 }
diff --git a/query-algebrizer/src/clauses/resolve.rs b/query-algebrizer/src/clauses/resolve.rs
index 0d4f1fa..ebb39a5 100644
--- a/query-algebrizer/src/clauses/resolve.rs
+++ b/query-algebrizer/src/clauses/resolve.rs
@@ -93,7 +93,7 @@ impl ConjoiningClauses {
                 }
             },
             Constant(NonIntegerConstant::Instant(v)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(v)))
+                Ok(QueryValue::TypedValue(v.into()))
             }
 
             // TODO: should we allow integers if they seem to be timestamps? It's ambiguous…
@@ -205,7 +205,7 @@ impl ConjoiningClauses {
                 Ok(QueryValue::TypedValue(TypedValue::Uuid(u)))
             }
             Constant(NonIntegerConstant::Instant(u)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(u)))
+                Ok(QueryValue::TypedValue(u.into()))
             }
             Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
             SrcVar(_) => unimplemented!(),
diff --git a/src/query_builder.rs b/src/query_builder.rs
index 90c44b2..1fb5497 100644
--- a/src/query_builder.rs
+++ b/src/query_builder.rs
@@ -88,7 +88,7 @@ impl<'a> QueryBuilder<'a> {
 
     pub fn bind_date_time(&mut self, var: &str, value: DateTime<Utc>) -> &mut Self {
         self.values
-            .insert(Variable::from_valid_name(var), TypedValue::Instant(value));
+            .insert(Variable::from_valid_name(var), value.into());
         self
     }
 
-- 
2.43.0

