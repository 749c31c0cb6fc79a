#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "A transaction changes the current facts by exactly what it says",
 "After a transaction commits, the current facts are exactly the previous facts minus those it retracts plus those it asserts: asserting a value for a single-valued attribute replaces that entity's previous value, re-asserting a fact that holds or retracting one that does not changes nothing, and every other fact is untouched. The outcome does not depend on the order in which the transaction's terms are written, nor on the notation used for them (vector form, map form, nested maps, reversed attributes, idents, lookup references, numeric ids). A transaction that both asserts and retracts the same fact, or gives a single-valued attribute two different new values, is rejected.",
 ["inputs", "histories"], "every store state reachable by transactions and every well-formed transaction against it",
 "The suite checks a few dozen hand-written transactions; the guarantee is over every prior state, every mixture of terms and every ordering, which enter through sets, generations and four SQL statements.",
 ["db/src/tx.rs", "db/src/db.rs", "db/src/add_retract_alter_set.rs", "db/src/tx_checking.rs", "db/src/internal_types.rs"],
 [("two-phase search and update of datoms", "db/src/db.rs: search, insert_transaction, update_datoms"), ("aggregation of asserted/retracted values", "db/src/tx.rs: into_aev_trie, tx_checking.rs"), ("interpretation of entity forms", "db/src/tx.rs: entities_into_terms_with_temp_ids_and_lookup_refs")],
 [("datoms", "current facts (e,a,v,tx)", "db/src/db.rs")], ["datoms table / queries after a transaction"])

prop("C02", "The transaction log records exactly what each transaction changed",
 "Every committed transaction appears in the log under one new, larger transaction id, as the exact difference it made: one assertion for each fact that became true, one retraction (with the value that really was there) for each fact that stopped being true, nothing else, plus one instant for the transaction itself. Replaying the whole log from the beginning therefore reproduces the current facts, each carrying the id of the transaction that last made it true.",
 ["histories", "inputs"], "every history of transactions",
 "Tests compare literal logs of short scripted histories; the equality between log delta and fact delta must hold after every history and for every mixture of matched, unmatched, replaced and retracted facts.",
 ["db/src/db.rs", "db/src/tx.rs", "transaction/src/query.rs", "src/conn.rs"],
 [("log insertion from search results", "db/src/db.rs: insert_transaction"), ("datoms update from the same search results", "db/src/db.rs: update_datoms"), ("transaction id and instant", "db/src/tx.rs: Tx::new, transact_simple_terms")],
 [("timelined_transactions", "log rows (e,a,v,tx,added,timeline)", "db/src/db.rs")], ["transactions view", "tx-data / tx-ids queries"])

prop("C03", "Temporary ids denote one entity each, resolved through unique identities",
 "Within one transaction all uses of one temporary id resolve to the same entity: the existing entity that already has one of the unique-identity values asserted for it, directly or through other temporary ids that resolve, or else a newly allocated one. Two temporary ids share an entity only when unique-identity assertions force them to. If the assertions identify one temporary id with two different existing entities the transaction is rejected, and the report maps every temporary id to the entity actually used.",
 ["inputs", "histories"], "every set of terms over temporary ids and every store state",
 "Resolution iterates a population of pending upserts to a fixed point; tests exercise a handful of chain shapes, not every graph of temporary ids.",
 ["db/src/upsert_resolution.rs", "db/src/tx.rs", "db/src/internal_types.rs", "core/src/intern_set.rs"],
 [("generations of pending upserts", "db/src/upsert_resolution.rs: Generation::evolve_one_step, allocate_unresolved_upserts, into_final_populations"), ("resolution of a-v pairs", "db/src/tx.rs: resolve_temp_id_avs; db/src/db.rs: resolve_avs")],
 (), ["TxReport.tempids"])

prop("C04", "New entity ids are always fresh and inside their partition",
 "An entity or transaction created by the store gets an id that lies inside the range of its partition and was never allocated before, in this session or any earlier one. Ids handed out only ever grow, allocating n ids yields n distinct consecutive ids, and a numeric id supplied by the user as the subject of a fact, in whatever notation, is accepted only if some partition has already allocated it; an invalid range or next-id is refused rather than accepted.",
 ["inputs", "histories"], "all partition states, allocation sizes and transaction histories, across reopening",
 "Freshness is a statement about all earlier allocations; tests observe a few literal ids.",
 ["db/src/types.rs", "db/src/db.rs", "db/src/tx.rs"],
 [("partition invariants and allocation", "db/src/types.rs: Partition; db/src/db.rs: PartitionMapping"), ("persisting the next id", "db/src/db.rs: update_partition_map / committed metadata")],
 [("known_parts", "partition ranges and next ids", "db/src/db.rs")], ["TxReport.tempids", "PartitionMap"])

prop("C05", "Only facts whose value fits the attribute's declared type are stored",
 "Every stored fact uses a known attribute and carries a value of exactly that attribute's declared value type; a transaction containing an unknown attribute or a value that does not fit is rejected as a whole. The only value conversions performed are the documented ones: where a reference is expected an integer is read as an entity id and a keyword naming a known ident as that entity; in particular an integer is not accepted for a double attribute, nor a double for an integer one.",
 ["inputs"], "every schema, attribute and input value",
 "Tests try particular (type, value) pairs; the guarantee is over the full product of value forms, types and notations.",
 ["db/src/schema.rs", "db/src/db.rs", "db/src/tx.rs", "core-traits/lib.rs", "core/src/types.rs"],
 [("type-directed coercion", "db/src/schema.rs: SchemaTypeChecking::to_typed_value"), ("type conflict detection", "db/src/tx_checking.rs: type_disagreements")],
 (), ["datoms.value_type_tag vs schema"])

prop("C06", "Cardinality and uniqueness hold in every reachable state",
 "In every state reachable through transactions, an entity has at most one value for each single-valued attribute, and at most one entity has any given value of a unique attribute. No sequence of transactions, including ones that move a unique value between entities, alter attributes, or fail half way, leads to a state that breaks this: such a transaction is rejected instead.",
 ["histories", "inputs"], "every history of transactions, schema changes included",
 "An invariant over all reachable states; tests check a few rejected transactions.",
 ["db/src/db.rs", "db/src/schema.rs", "db/src/metadata.rs", "db/src/tx_checking.rs"],
 [("unique indices on datoms", "db/src/db.rs: V1_STATEMENTS"), ("index flags stored with each datom", "core-traits/lib.rs: Attribute::flags; db/src/db.rs: update_datoms, update_metadata"), ("cardinality conflicts", "db/src/tx_checking.rs: cardinality_conflicts")],
 [("datoms.index_avet/unique_value", "index flags per datom", "db/src/db.rs")], ["datoms table"])

prop("C07", "Stored values read back as the same value of the same type",
 "Every value of every type, once stored, reads back as the same value of the same type through every reading path, and values of different types never collide even when their encodings are equal. Instants keep microsecond precision for every representable date, before and after 1970; doubles keep their bits, and strings, keywords and UUIDs keep theirs.",
 ["inputs"], "every value of every value type",
 "The value space is unbounded; tests store a handful of values, none before the epoch.",
 ["db/src/db.rs", "core-traits/lib.rs", "edn/src/types.rs", "sql/src/lib.rs", "core/src/sql_types.rs", "query-projector/src/lib.rs"],
 [("value codec", "db/src/db.rs: TypedSQLValue for TypedValue"), ("type tags", "db/src/db.rs / core/src/sql_types.rs: SQLValueType"), ("instant conversion", "edn/src/types.rs: FromMicros, ToMicros")],
 [("value_type_tag", "type tag stored beside v", "db/src/db.rs")], ["datoms.v", "query results"])

prop("C08", "The schema in memory is the schema on disk",
 "After every committed transaction the in-memory schema, idents and id partitions are what reopening the store from disk would produce, and the store can always be reopened. The schema depends only on the facts currently asserted about idents and attributes, not on the path of transactions that led there.",
 ["histories", "crash_points"], "every history of schema-changing transactions, and every point of reopening",
 "The in-memory schema is maintained by a separate incremental path from the SQL that materialises it; tests compare them after single changes only.",
 ["db/src/metadata.rs", "db/src/db.rs", "db/src/schema.rs", "core/src/lib.rs", "db/src/tx.rs"],
 [("incremental schema update", "db/src/metadata.rs: update_schema_from_entid_quadruples"), ("materialised schema/idents tables", "db/src/db.rs: update_metadata"), ("reading metadata", "db/src/db.rs: read_db, read_ident_map, read_attribute_map"), ("attribute build/mutate", "db/src/schema.rs: AttributeBuilder")],
 [("schema / idents views", "materialised metadata", "db/src/db.rs")], ["Conn::current_schema vs reopened store"])

prop("C09", "Only legal schema changes are accepted",
 "An attribute can be installed only with a legal, complete combination of properties (a value type, unique implies indexed, full-text only on indexed strings, components only on references), and every accepted change leaves every attribute legal. The value type and full-text flag of an installed attribute cannot be changed, incompatible changes of properties are rejected, and a rejected change leaves no trace.",
 ["inputs", "histories"], "every attribute definition and alteration, over every prior attribute",
 "The legality rules are a finite but large product of properties that tests sample in a few points.",
 ["db/src/schema.rs", "db/src/metadata.rs", "core-traits/lib.rs"],
 [("validation on install and alter", "db/src/schema.rs: AttributeBuilder::validate_install_attribute, validate_alter_attribute, AttributeValidation::validate"), ("applying alterations", "db/src/schema.rs: mutate; db/src/metadata.rs")],
 (), ["transact result, schema afterwards"])

prop("C10", "Transactions are all or nothing",
 "A transaction that fails, or an in-progress transaction that is dropped or rolled back, leaves facts, log, schema, idents, partitions and in-memory state exactly as before it began. A committed one is entirely visible to every later reader, including after the store is closed and reopened. Several transactions applied within one in-progress transaction take effect together on commit or not at all.",
 ["histories", "fault_sequences", "crash_points"], "every sequence of succeeding, failing, abandoned and committed transactions",
 "Failures can strike at every stage of a transaction; tests look at one or two failing inputs and never at all of the state.",
 ["src/conn.rs", "transaction/src/lib.rs", "db/src/tx.rs"],
 [("SQLite transaction and deferred publication of metadata", "transaction/src/lib.rs: InProgress; src/conn.rs: begin_transaction")],
 [("Metadata generation / partition map / schema", "published on commit", "transaction/src/lib.rs, src/conn.rs")], ["all tables and in-memory metadata"])

prop("C11", "Caching attributes never changes an answer",
 "Whatever set of attributes is cached, and whenever caching was turned on or off, every query and lookup returns what it returns with no caching. This remains true after transactions commit, fail or are rolled back.",
 ["histories", "configurations"], "every set of cached attributes, every history of cache and transaction operations",
 "Caches are updated incrementally by watching transactions; tests follow a few scripted updates.",
 ["db/src/cache.rs", "src/conn.rs", "query-algebrizer/src/clauses/pattern.rs", "db/src/watcher.rs"],
 [("incremental cache update", "db/src/cache.rs: SingleValAttributeCache, MultiValAttributeCache, InProgressSQLiteAttributeCache"), ("substitution of cached values in queries", "query-algebrizer/src/clauses/pattern.rs")],
 [("SQLiteAttributeCache", "cached attribute values", "db/src/cache.rs")], ["query results", "lookup_value(s)_for_attribute"])

prop("C12", "Rewinding a timeline restores the earlier state",
 "Moving the most recent transactions of the main timeline to another timeline leaves facts, schema, idents and the main log as they were before those transactions, while the moved transactions keep their order and content under the other timeline. A request that does not name a suffix of the main timeline, or a non-empty target timeline, is rejected without effect.",
 ["histories"], "every history and every suffix of it",
 "Tests rewind a few one- or two-transaction histories.",
 ["db/src/timelines.rs", "db/src/tx.rs", "db/src/metadata.rs"],
 [("inverse terms and log relabelling", "db/src/timelines.rs: move_from_main_timeline")],
 [("timelined_transactions.timeline", "timeline of each log row", "db/src/timelines.rs")], ["datoms, schema, timelined_transactions"])

prop("C13", "Observers hear exactly the committed transactions that concern them",
 "A registered observer is called once for a commit exactly when some transaction in it contained an assertion or retraction of one of its registered attributes, with the ids of exactly the transactions that did, in order, and with the attributes each one touched. Transactions that failed or were rolled back are never reported, and an unregistered observer is never called.",
 ["histories"], "every set of observers and every history",
 "Delivery is a relation between all observers and all commits; tests use one or two observers and short histories.",
 ["db/src/tx_observer.rs", "src/conn.rs", "transaction/src/lib.rs"],
 [("collecting changed attributes", "db/src/tx_observer.rs: InProgressObserverTransactWatcher"), ("matching and delivery", "db/src/tx_observer.rs: TxObservationService, TxObserver")],
 (), ["observer callbacks"])

prop("C14", "A query returns exactly the bindings that satisfy it",
 "The result set of a query is exactly the set of bindings of its find variables for which every where-clause holds over the current facts, with patterns, or, or-join, not, not-join, comparisons, ground data and type predicates having their ordinary logical meaning. Bound inputs behave as constants, the order of the clauses does not change the bindings of a query that is accepted, and a variable never matches values of different types as equal.",
 ["inputs", "histories", "programs"], "every query in the supported language over every store",
 "Tests compare the SQL text of sample queries and run a few; the meaning of the translation over all queries and data is never checked.",
 ["query-algebrizer/src", "query-sql/src/lib.rs", "query-projector/src", "src/query.rs"],
 [("algebrizing clauses to columns and constraints", "query-algebrizer/src/clauses"), ("translation to SQL", "query-projector/src/translate.rs, query-sql/src/lib.rs")],
 (), ["q_once results"])

prop("C15", "Value-type inference sets form a sound algebra",
 "The sets of possible types a query variable is narrowed to behave as mathematical sets: union, intersection, difference, insertion, membership, subset, emptiness, uniqueness and iteration all agree with the set of member types, for every combination of types. A type set never loses or invents a type, and a value matched against a type set or type tag is accepted exactly when its type is in the set.",
 ["inputs"], "all sets of value types and all value types",
 "There are 2^types sets and pairs of sets; tests use two or three.",
 ["core-traits/value_type_set.rs", "core-traits/lib.rs", "core/src/sql_types.rs"],
 [("ValueTypeSet over EnumSet", "core-traits/value_type_set.rs"), ("type tags", "core/src/sql_types.rs")],
 (), ["ValueTypeSet API", "type narrowing in queries"])

prop("C16", "User data never alters generated SQL",
 "Strings, keywords and other values coming from users, and variable names in queries, reach the database only as bound parameters or escaped literals: for every value, executing a query or transaction containing it has the effect of that value and nothing else. Every placeholder in generated SQL has exactly one binding carrying exactly the intended value, and equal string values share one parameter without mixing different ones.",
 ["inputs"], "all user strings, blobs and identifiers",
 "Needs all strings, in particular quotes, placeholders and control characters; tests use plain words.",
 ["sql/src/lib.rs", "query-sql/src/lib.rs", "db/src/db.rs", "query-pull/src/lib.rs"],
 [("SQLiteQueryBuilder parameter interning and quoting", "sql/src/lib.rs"), ("typed value literals", "sql/src/lib.rs: push_typed_value")],
 (), ["SQLQuery text and args; query results"])

prop("C17", "Find specs, order, limit and aggregates shape results as written",
 "The find spec decides the shape (relation of rows, single tuple, single collection, single value), each row having one column per find element, in order; results contain no duplicate rows (rows that differ only in ordering variables outside the find spec may repeat). Ordering clauses sort the results by the named variables in the named directions, a limit keeps that many rows of the ordered result, and aggregates (count, sum, avg, min, max) are computed per group of the remaining find variables over the distinct bindings of the find and with variables; over no bindings a count is 0 and the other aggregates give no row.",
 ["inputs", "programs"], "every find spec, ordering, limit and result",
 "Tests check a few combinations, mostly over tiny stores.",
 ["query-projector/src", "query-projector-traits", "query-algebrizer/src/lib.rs", "edn/src/query.rs", "core/src/types.rs"],
 [("projectors per find spec", "query-projector/src/projectors"), ("simplifying order and limit", "query-algebrizer/src/lib.rs: validate_and_simplify_order, simplify_limit"), ("row storage", "query-projector/src/relresult.rs")],
 (), ["QueryOutput"])

prop("C18", "Pull returns exactly the requested attributes of the entity",
 "Pulling a set of attributes (or all, or with aliases and :db/id) for entities returns, for each entity, exactly the values it currently has for those attributes: one value for a single-valued attribute, all values for a multi-valued one, under the requested name, and nothing for attributes it lacks. The result does not depend on what other entities hold.",
 ["inputs", "histories"], "every store, entity set and pull pattern",
 "Tests pull two fixed patterns from one fixed store.",
 ["query-pull/src/lib.rs", "query-projector/src/pull.rs", "src/conn.rs"],
 [("Puller", "query-pull/src/lib.rs: Puller::prepare, Puller::pull")],
 (), ["pull results"])

prop("C19", "EDN printing and parsing agree, and parsing never panics",
 "Parsing the printed form of any EDN value yields an equal value (comments and source positions aside, and instants within the years RFC 3339 can write), whether it was printed plainly or pretty-printed. Any input text at all either parses or gives an error, for values, queries and transactions, and numbers out of range are errors rather than crashes or wrong values.",
 ["inputs"], "all EDN values and all input strings",
 "Unbounded inputs; tests parse and print a fixed list.",
 ["edn/src/types.rs", "edn/src/lib.rs", "edn/src/pretty_print.rs"],
 [("EDN grammar", "edn/src/lib.rs"), ("Display and pretty printer", "edn/src/types.rs, edn/src/pretty_print.rs")],
 (), ["edn::parse, Value Display/to_pretty"])

prop("C20", "Names compare, order and print consistently",
 "A keyword or symbol is determined by its namespace and name: two are equal exactly when both parts are equal, their order is a total order grouping by namespace and then name and consistent with equality and hashing, and parts, printed form and reversed/forward forms round-trip. The ordering of EDN values is a total order consistent with equality as well.",
 ["inputs"], "all names and all EDN values, in pairs and triples",
 "Order laws quantify over all pairs and triples; tests compare a few.",
 ["edn/src/namespaceable_name.rs", "edn/src/symbols.rs", "edn/src/types.rs"],
 [("boundary-indexed components", "edn/src/namespaceable_name.rs"), ("value ordering", "edn/src/types.rs: Ord for Value")],
 (), ["Keyword/Value API"])

prop("C21", "Ensuring vocabularies is idempotent and only moves forward",
 "Ensuring a vocabulary installs exactly its attributes and version when absent, does nothing when the same version is present, upgrades (running its hooks once) when an older version is present, and refuses when a newer version is present or an attribute differs from its definition under the same version (versions are at least 1, and an attribute belongs to one vocabulary). Attributes outside the vocabulary's definition are never changed.",
 ["histories", "configurations"], "every sequence of vocabulary definitions ensured against every store",
 "Tests run two or three scripted upgrades.",
 ["src/vocabulary.rs", "core/src/lib.rs"],
 [("vocabulary checks", "src/vocabulary.rs: check_vocabulary, ensure_vocabularies")],
 (), ["VocabularyOutcome, schema afterwards"])

prop("C22", "Syncing stores converge without losing transactions",
 "After two stores sync through a remote, repeatedly and in any interleaving with local transactions, both hold the same facts up to local ids, and no committed transaction's facts are lost. A sync that fails leaves the local store as it was.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of syncs and transactions of several stores",
 "Interleavings of several stores, remote failures and merges; tests script a few.",
 ["tolstoy/src/syncer.rs", "tolstoy/src/tx_mapper.rs", "tolstoy/src/tx_uploader.rs", "src/sync.rs"],
 [("sync state machine", "tolstoy/src/syncer.rs")], (), ["stores after sync"])

prop("C23", "Programmatic transaction and query building equals the textual form",
 "Building a transaction term by term with the builder API has the same effect as transacting the equivalent text, and running a built query with bound inputs returns the same as the equivalent text. A builder that fails leaves the store unchanged.",
 ["inputs", "programs"], "every sequence of builder operations",
 "Tests exercise a few builder calls.",
 ["transaction/src/entity_builder.rs", "src/query_builder.rs", "src/conn.rs"],
 [("TermBuilder / EntityBuilder", "transaction/src/entity_builder.rs"), ("QueryBuilder", "src/query_builder.rs")], (), ["store state and results"])

prop("C24", "Concurrent users of one store see consistent snapshots",
 "Threads sharing one store handle observe metadata and facts belonging to the same committed state, and concurrent writers are serialised.",
 ["schedules"], "every interleaving of threads",
 "Interleavings; tests are single-threaded.",
 ["src/conn.rs", "src/store.rs"], [("metadata mutex and immediate transactions", "src/conn.rs: Conn")], (), ["reads during writes"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
