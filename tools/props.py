#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the catalogue is maintained here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

# ---------------------------------------------------------------- common
p("C01", "Roles grant exactly their documented permissions, and nothing by accident",
  "A server, organization or project operation is allowed exactly when the caller's server role, organization role or project role grants it: a server admin may do everything, an organization owner everything in that organization, organization admins manage its projects, and project owner / admin / member / reader have strictly shrinking rights. A missing role, or a role held in another organization or project, grants nothing.",
  ["inputs", "configurations"], "every combination of server role, organization and project memberships, target and requested permission",
  "No test evaluates the permission decision at all; the decision is a product of three role tables and two membership lists.",
  ["src/common/src/rbac.rs", "src/platform/src/context.rs"],
  [("role -> permission tables", "src/common/src/rbac.rs PERMISSIONS/ORGANIZATION_PERMISSIONS/PROJECT_PERMISSIONS"), ("decision procedure", "src/platform/src/context.rs Context::check_*")])
p("C02", "Query time windows and interval lengths resolve to the documented instants",
  "A query window given as between, from, or last-N-units resolves to exactly the stated bounds, where last N hours/days/weeks subtracts exact lengths and last N months/years subtracts calendar months with the day clamped to the month's end, ending at the query's own clock. An interval of N units used as a sliding window lasts N hours, days, weeks, 31-day months or 12x31-day years, and only the repeating kind of segment window has such a length.",
  ["inputs"], "every clock value, unit and count (leap days, month ends, negative and zero counts included)",
  "The calendar cases (month ends, leap years) are an infinite set; tests do not cover window resolution.",
  ["src/common/src/query.rs"], [("window resolution", "src/common/src/query.rs QueryTime::range"), ("lengths", "src/common/src/query.rs TimeIntervalUnit::{duration,relative_duration}"), ("segment window", "src/common/src/query.rs SegmentTime::try_window")])
p("C03", "Time buckets tile the queried range and every event falls in a listed bucket",
  "Truncating an instant to an hour, day, week (starting Monday), month or year yields the latest bucket start not after it, is idempotent and monotone. The list of result columns for a range is exactly the increasing sequence of all bucket starts from the one holding the range start to the one holding its end, so every instant of the range truncates to a listed column.",
  ["inputs"], "every pair of instants and every granularity",
  "Only sampled instants can be tested; the tiling claim relates two functions over all ranges.",
  ["src/common/src/query.rs"], [("truncation", "src/common/src/query.rs date_trunc"), ("column enumeration", "src/common/src/query.rs time_columns")])
p("C04", "Data types keep their identity across storage, query and naming layers",
  "Every user-visible data type has its own short column prefix, and converting it to the storage type system or to the query engine's type system and back returns the same type (list types stand for their element type, decimals keep one fixed precision and scale, timestamps one fixed unit). A type with no counterpart is rejected, never silently replaced by another.",
  ["inputs"], "every data type and every foreign type, in both directions",
  "The existing tests do not touch type conversion; the tables must agree pairwise for every entry.",
  ["src/common/src/types.rs"], [("names", "src/common/src/types.rs DType::short_name"), ("conversions", "src/common/src/types.rs From/TryFrom impls for DType")])
p("C05", "Stored query and patch values mean the same after a round trip through JSON",
  "A scalar value in a filter, saved query or report survives encoding and decoding with the same type and the same value, or is refused. A patch field distinguishes leave-unchanged from set, including set-to-null, on decoding, and applying it changes the target only in the latter case; sort orders and saved queries round-trip unchanged.",
  ["inputs"], "every scalar type and value, every patch document and every saved query shape",
  "Three tests sample the patch field only; the scalar mapping has one branch per type and direction.",
  ["src/common/src/scalar.rs", "src/common/src/types.rs", "src/common/src/query.rs", "src/common/src/event_segmentation.rs", "src/common/src/funnel.rs"],
  [("scalar mapping", "src/common/src/scalar.rs"), ("patch field", "src/common/src/types.rs OptionalProperty")])
p("C06", "Every failure reaches the API client with the right status and details",
  "Each kind of failure maps to its own HTTP status and keeps its message and per-field details: bad request 400, unauthorized 401, forbidden 403, not found 404, conflict 409, internal 500, unimplemented 501. The JSON error body always carries the same status as the response line.",
  ["inputs"], "every failure kind, message and set of field errors, at every layer that wraps them",
  "No test checks the mapping; it must hold for every error variant.",
  ["src/common/src/http.rs", "src/platform/src/error.rs"], [("error body", "src/common/src/http.rs ApiError"), ("mapping", "src/platform/src/error.rs into_api_error")])
p("C07", "Query vocabulary maps one-to-one onto engine operators and names",
  "Each comparison a user can request maps to the engine comparison of the same meaning, and mapping there and back is the identity; operations that take no value are recognised as such, and aggregates and time units keep their meaning across layers. Event and property references resolve to the name or id they carry.",
  ["inputs"], "every operation, aggregate, unit and reference",
  "No test exercises the mapping tables; a swapped pair type-checks and changes every query result.",
  ["src/common/src/query.rs"], [("operator maps", "src/common/src/query.rs From/TryInto impls"), ("references", "src/common/src/query.rs EventRef::name, PropertyRef::name")])

# ---------------------------------------------------------------- storage
p("S01", "An acknowledged insert survives any crash and restart, exactly once",
  "Once an insert returns, its row is returned by scans after any later crash and reopen, exactly once and with the same values, wherever the crash fell in logging, flushing or compaction. A row that was never accepted does not appear, and reopening always succeeds.",
  ["crash_points", "histories"], "every history of inserts, added fields, flushes and compactions, and every crash point between the file operations they perform",
  "Tests reopen the store only after clean, quiescent shutdown; crash points between file operations are never taken.",
  ["src/storage/src/db.rs", "src/storage/src/compaction.rs", "src/storage/src/table.rs"],
  [("write-ahead log", "src/storage/src/db.rs log_op/recover"), ("flush", "src/storage/src/db.rs flush"), ("metadata snapshot", "src/storage/src/db.rs write_metadata"), ("compaction commit", "src/storage/src/compaction.rs compact")],
  state=[("log / parts / metadata / memtable", "where an acknowledged row may live", "src/storage/src/db.rs, table.rs, memtable.rs")])
p("S02", "A scan returns exactly the inserted rows, in key order, with nulls where absent",
  "A scan of any columns that include the table key returns every inserted row exactly once, ordered by the table key, with each value in its own column and null where the row or an older part has no such column. Flushing, compacting, reopening and adding columns, in any order and at the same time as a scan or an insert, never changes what a scan returns.",
  ["histories", "inputs"], "every history of insert, add-column, flush, compact and scan, and every projection",
  "The few tests use one fixed history each; the answer must be invariant under every interleaving of maintenance steps.",
  ["src/storage/src/db.rs", "src/storage/src/memtable.rs", "src/storage/src/arrow_conversion.rs", "src/storage/src/parquet/arrow_merger.rs"],
  [("buffer to columns", "src/storage/src/memtable.rs"), ("merging reader", "src/storage/src/parquet/arrow_merger.rs"), ("schema reconciliation", "src/storage/src/db.rs scan")])
p("S03", "Merging sorted files yields exactly their rows in key order, whatever the layout",
  "Merging any number of key-sorted files produces files whose concatenation is the multiset union of the input rows in key order, values and nulls kept with their keys, for every page size, row-group size, overlap pattern and differing column sets. The boundaries recorded for each resulting file enclose its keys.",
  ["inputs", "configurations"], "every set of sorted input files, value layout and size limit",
  "Existing merge tests use a handful of hand-made files; page and row-group boundaries interact combinatorially.",
  ["src/storage/src/parquet/parquet_merger.rs", "src/storage/src/parquet/mod.rs", "src/storage/src/parquet/merge_data_arrays.rs"],
  [("heap merge of page chunks", "src/storage/src/parquet/parquet_merger.rs"), ("intersection tracking", "src/storage/src/parquet/parquet_merger.rs")])
p("S04", "Compaction keeps levels disjoint and loses or duplicates no part",
  "After any number of compaction rounds every row is in exactly one live part, parts below the first level do not overlap in key range within their level (a key may at most end one part and begin the next), and part ids are unique. A round changes nothing while the first level is within its number of parts; otherwise it empties the first level, rows only move down, and each level that received rows passes on what exceeds its size.",
  ["histories", "configurations"], "every arrangement of parts over levels and every size-limit configuration",
  "Tests pin a few part layouts; selection is case analysis over arbitrary overlaps.",
  ["src/storage/src/compaction.rs", "src/storage/src/table.rs"],
  [("selection", "src/storage/src/compaction.rs determine_compaction"), ("commit", "src/storage/src/compaction.rs compact")])
p("S05", "A replacing table shows only the latest version of each key",
  "In a table that replaces rows, a scan returns for each key (the index columns but the last) exactly one row, the one with the highest version (the last index column), whole and unmixed with columns of other versions, no matter which versions sit in memory, in parts, or were merged by compaction.",
  ["histories"], "every history of versions for a key set, flushes and compactions",
  "Tests replace a key once or twice in one placement; the winner must be independent of where versions live.",
  ["src/storage/src/memtable.rs", "src/storage/src/parquet/arrow_merger.rs", "src/storage/src/parquet/parquet_merger.rs"],
  [("dedup in memory", "src/storage/src/memtable.rs"), ("dedup while merging", "src/storage/src/parquet/arrow_merger.rs, parquet_merger.rs")])
p("S06", "Restoring a backup reproduces exactly the state at backup time",
  "Restoring a full backup yields, for every table, the same columns and exactly the rows that were stored when the backup was taken, whatever happened to the store afterwards, including rows still unflushed. The restored store accepts further writes normally, a backup taken while others write shows one state of each table, and a damaged backup is refused and changes nothing.",
  ["histories", "crash_points"], "every history before the backup, between backup and restore, and after",
  "One test restores one simple state; content in memory, in several levels and in several tables must all survive.",
  ["src/storage/src/db.rs"], [("backup", "src/storage/src/db.rs full_backup"), ("restore", "src/storage/src/db.rs full_restore")])
p("S07", "Point lookup returns the stored row and conditional writes never lose an update",
  "Looking up a key returns the row a full scan would show for that key, wherever it is stored, and nothing for an absent key. A conditional write succeeds only if the row's version is still the one it read, so of several conditional writes from one read at most one succeeds, and none once somebody else wrote the row. This holds within one run of the store.",
  ["histories", "schedules"], "every placement of a key over memory and parts, and every order of conditional writers",
  "Tests look up one key in one placement; races between conditional writers are never scheduled.",
  ["src/storage/src/db.rs"], [("lookup", "src/storage/src/db.rs get"), ("version check", "src/storage/src/db.rs replace / get_cas")])

# ---------------------------------------------------------------- metadata
p("M01", "Catalogue objects have unique, never reused ids and unambiguous names",
  "Within a project, creating an event, custom event, property, report or dashboard returns an id never used before for that kind, even after deletions and failures, and no two live objects that must be unique share a name or display name. Lookup by id and by any current name agree with the list, and a renamed or deleted object is no longer found under its old name.",
  ["histories"], "every history of create, get-or-create, update, delete, attach and detach over several projects",
  "Each test performs one short fixed history per kind.",
  ["src/metadata/src/events.rs", "src/metadata/src/properties.rs", "src/metadata/src/custom_events.rs", "src/metadata/src/dashboards.rs", "src/metadata/src/reports.rs", "src/metadata/src/index.rs"],
  [("id sequence", "src/metadata/src/index.rs next_seq"), ("secondary indices", "src/metadata/src/index.rs insert/update/delete_index")])
p("M02", "Dictionary encoding is a bijection per project, table and column",
  "Encoding a string always yields the same key for the same project, table and column, distinct strings get distinct keys, and decoding a key returns exactly the string it was issued for. Encodings of one project, table or column never affect another's.",
  ["histories", "schedules"], "every history of encodings, decodings and explicit keys over several projects, tables and columns",
  "The one test encodes a handful of values in sequence.",
  ["src/metadata/src/dictionaries.rs"], [("forward and reverse index", "src/metadata/src/dictionaries.rs")])
p("M03", "A group or user keeps one identity, anonymous history included",
  "An external group or user id maps to one internal id for life; identifying a previously anonymous visitor gives the user that visitor's id when the user is new and keeps the user's id when it is known, and later lookups by either id agree. Updating a group's values overwrites the given properties, keeps the others, and the version numbers handed out for a group strictly increase.",
  ["histories"], "every history of anonymous visits, identifications and group updates",
  "Tests cover single steps; identity is a property of the whole history.",
  ["src/metadata/src/groups.rs"], [("identity index", "src/metadata/src/groups.rs"), ("value merge", "src/metadata/src/groups.rs create_or_update")])
p("M04", "Sessions begin exactly when the visitor has no live session",
  "Recording activity reports a new session exactly when the visitor had none, and a session's recorded time is that of the latest recorded activity. The expiry sweep ends exactly the sessions its rule selects, even when activity goes on meanwhile; no other call or visitor's session is affected.",
  ["histories"], "every history of activity, expiry and removal over several visitors and projects",
  "Tests create one session.", ["src/metadata/src/sessions.rs"], [("session record", "src/metadata/src/sessions.rs")])
p("M05", "Custom events never form cycles or exceed the nesting limit",
  "A custom event that would contain itself, directly or through others, or whose nesting would exceed the limit, is refused on creation and update, and a refused change leaves the catalogue as it was. Accepted definitions are stored as given, members that do not exist are refused, and a definition in whose expansion one custom event occurs twice is refused.",
  ["histories"], "every sequence of definitions and redefinitions over a set of custom events",
  "Tests try one self-reference and one over-deep chain.", ["src/metadata/src/custom_events.rs"], [("validation walk", "src/metadata/src/custom_events.rs validate_event")])
p("M06", "Accounts, organizations and projects stay unique and mutually consistent",
  "No two accounts share an email, no two organizations, no two projects and no two teams of one organization share a name, and no two projects share a token; lookup by email, token or id agrees with the list. An account's membership list and an organization's member list always name each other with the same role, whatever creations, updates, removals and deletions happened.",
  ["histories"], "every history of account, organization, membership and project operations",
  "Tests run one fixed script per kind; the relation spans two stores.",
  ["src/metadata/src/accounts.rs", "src/metadata/src/organizations.rs", "src/metadata/src/projects.rs", "src/metadata/src/teams.rs"], [("indices", "src/metadata/src/index.rs"), ("memberships", "src/metadata/src/organizations.rs add_member/remove_member")])
p("M07", "Every property owns a distinct, stable storage column",
  "Each property of a table gets a storage column of its own type that no other property of the project has or ever had (system properties of the same name excepted), assigned at creation and unchanged for life. The same column is what lookup by name, id and column return, and dictionary-encoded properties use their key type for storage.",
  ["histories"], "every history of property creation over types, tables and projects",
  "Tests create a couple of properties of one type.", ["src/metadata/src/properties.rs"], [("column order counter", "src/metadata/src/properties.rs"), ("column name", "src/metadata/src/properties.rs column_name")])
p("M08", "Data of one project is never visible or changed through another",
  "Creating, updating, listing or deleting any object in one project leaves every object, name, id sequence, dictionary, session and group of every other project untouched and is never visible through them.",
  ["histories"], "every history of operations interleaved over several projects, ids with common decimal prefixes included",
  "Tests use one project or two with unrelated ids.", ["src/metadata/src/lib.rs", "src/metadata/src/index.rs"], [("key layout", "src/metadata/src/lib.rs project_ns, list_data")])
p("M09", "Backup scheduling and settings are validated and stored as given",
  "Settings are refused exactly when a required credential for an enabled option is missing, and stored values read back unchanged. A backup record keeps the provider and encryption settings in force when it was requested, shows the status last reported for it, and a backup is refused while another waits to start.",
  ["histories", "configurations"], "every combination of settings and every sequence of requests and status changes",
  "Tests store one valid settings object.", ["src/metadata/src/settings.rs", "src/metadata/src/backups.rs"], [("validation", "src/metadata/src/settings.rs"), ("record", "src/metadata/src/backups.rs")])

# ---------------------------------------------------------------- ingest
p("I01", "Each accepted event is stored as one row that says what was sent",
  "Tracking an event stores exactly one row carrying its project, event name, time, groups and every property value (those it was sent with, then what is known from its address and user agent) in the column of that property with the right type and value; preceded by exactly one session-begin row, with the same content and the campaign, when the person has no open session. Undeclared events, properties and groups are registered on first use and never change their type, and the project's count of events grows by one. A rejected request (unknown project token, unreadable body, nobody named, value of another type than the property's, too many groups) stores nothing and begins no session.",
  ["inputs", "histories"], "every request shape, property type and order of requests, also across restarts",
  "One test tracks one event end to end.", ["src/ingester/src/executor.rs", "src/ingester/src/destinations/local/track.rs"], [("property resolution", "src/ingester/src/executor.rs"), ("value encoding", "src/ingester/src/lib.rs"), ("row building", "src/ingester/src/destinations/local/track.rs"), ("enrichment", "src/ingester/src/transformers/user_agent/mod.rs")])
p("I02", "The same person is recorded under one id across track and identify calls",
  "Events with the same external id always carry the same user key, and so do events with the same anonymous id; a person first named together with a known anonymous id goes on under the anonymous id's key, and the key reads back as one of the person's own ids. The same holds for members of the other groups. An identify call leaves one record of that member in the table of that group, holding every property value ever sent for the member, the newest winning, with a higher version than before.",
  ["histories"], "every order of anonymous, identified, track and identify calls",
  "One test sends one identify call.", ["src/ingester/src/executor.rs", "src/ingester/src/destinations/local/identify.rs"], [("identity resolution", "src/ingester/src/executor.rs"), ("group rows", "src/ingester/src/destinations/local/identify.rs")])

# ---------------------------------------------------------------- query
p("Q01", "Filters select exactly the rows that satisfy the user's condition",
  "A property filter keeps a row exactly when its value satisfies the requested comparison with at least one listed value (positive comparisons) or with every listed value (negative comparisons); exists and empty test presence, and conditions on project, event and time window combine with and.",
  ["inputs"], "every operation, value list, property type and row, nulls included",
  "Tests sample one filter per shape.", ["src/query/src/expr.rs"], [("filter expressions", "src/query/src/expr.rs")])
p("Q02", "Segments contain exactly the users whose history meets the condition",
  "A behavioural segment contains a user exactly when the count or aggregate of that user's matching events inside the time window meets the comparison (a user without any matching event has a count of zero and no aggregate), and and/or combinations are the intersection or union of their operands, however the rows are split into batches.",
  ["inputs", "histories"], "every set of user histories, batch split, window and nesting of conditions",
  "Tests use one hand-made batch sequence per expression.", ["src/query/src/physical_plan/expressions/segmentation/count.rs", "src/query/src/physical_plan/expressions/segmentation/aggregate.rs", "src/query/src/physical_plan/expressions/segmentation/boolean_op.rs", "src/query/src/physical_plan/segment.rs"],
  [("per-user evaluation", "src/query/src/physical_plan/expressions/segmentation")])
p("Q03", "Event aggregates equal the aggregate of the selected rows per group",
  "Count, sum, average, minimum and maximum over events equal the mathematical aggregate of exactly the rows passing the filter in each group, restricted to the selected users, and do not depend on batch boundaries.",
  ["inputs"], "every row set, batch split, grouping, filter and user selection",
  "Tests use one hand-made batch sequence per aggregate.", ["src/query/src/physical_plan/expressions/aggregate/count.rs", "src/query/src/physical_plan/expressions/aggregate/mod.rs"], [("accumulators", "src/query/src/physical_plan/expressions/aggregate")])
p("Q04", "Per-user aggregates are computed per user first, then across users",
  "A per-user metric is first aggregated over each selected user's matching events and then aggregated across the users that have any, in each group, independently of how rows are batched; distinct counting counts each user once.",
  ["inputs"], "every set of user histories, batch split, pair of inner and outer aggregate, grouping and filter",
  "Tests use one hand-made batch sequence per expression.", ["src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs", "src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs"], [("two-level accumulators", "src/query/src/physical_plan/expressions/aggregate/partitioned")])
p("Q05", "A funnel counts the users who completed its steps in order within its window",
  "A user's events are read in order: an event that matches the first step begins an attempt, each next one that matches the step waited for advances it; it ends and counts for the steps it completed when all are completed, when an event comes later than the conversion window allows or with the user's last event; an excluded event or a changed holding constant voids it. For each breakdown value and time bucket (of the attempt's first event) a step's total is the number of attempts that got that far or, counting uniquely, of users, each once with the attempt that got furthest; totals never increase from step to step, and conversion and drop-off ratios and times to convert are theirs. Only events of the project, in the queried time, passing the filters, are read, and the answer is independent of how rows are batched and partitioned.",
  ["inputs", "histories"], "every set of user histories, step order constraints, windows, exclusions and batch splits",
  "Tests replay a few hand-written histories.", ["src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs"], [("step matcher", "src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs")])
p("Q06", "Result shaping moves values without losing, inventing or misplacing any",
  "Pivoting, unpivoting, merging result sets and limiting the number of groups rearrange results only: each value ends in the row and column its labels name, absent combinations are null, and limits keep the leading groups whole.",
  ["inputs"], "every result shape and batch split", "Tests shape one small result per operator.",
  ["src/query/src/physical_plan/pivot.rs", "src/query/src/physical_plan/unpivot.rs", "src/query/src/physical_plan/merge.rs", "src/query/src/physical_plan/limit_groups.rs"], [("streams", "src/query/src/physical_plan")])

p("Q07", "Looking at records shows exactly the records asked for, with their own values",
  "A search of events shows the records of the project in the queried time that are any of the events asked for with its filters and pass the common filters, latest first and at most a hundred, each with its own values of the properties asked for (or of all), under their names. A search of group records does so for a group, its time and filters. A record asked for by its id is shown with all its values, and one that isn't there, or is another project's, is an error. The values of a property are those of the matching events, each once, in order and passing the filter.",
  ["inputs"], "every history of events and group records and every search, filter, custom event, projection and answer format",
  "No test searches records through the API; the query crate's tests print one table.", ["src/query/src/event_records.rs", "src/query/src/group_records.rs", "src/query/src/properties.rs", "src/platform/src/event_records.rs", "src/platform/src/group_records.rs"], [("event records", "src/query/src/event_records.rs"), ("group records", "src/query/src/group_records.rs"), ("property values", "src/query/src/properties.rs")])

# ---------------------------------------------------------------- platform
p("P01", "Every API operation is refused unless the caller holds its permission",
  "Each operation on projects, schema, reports, dashboards, bookmarks, accounts, organizations, settings, backups and queries first requires its permission on the project, organization or server it names; a refused call reads and changes nothing, and lists show only what the caller may view.",
  ["inputs", "configurations"], "every operation, caller and target", "Tests call as an administrator only.",
  ["src/platform/src"], [("permission gates", "src/platform/src/*.rs check_*_permission calls")])
p("P02", "Tokens are accepted only if genuine, unexpired and of the right kind",
  "An access or refresh token is accepted only when signed with the current key of its own kind and not expired, and yields exactly the account and organization it was issued for; changing a key invalidates earlier tokens. Logging in requires the account's current password, and a password or email change takes effect immediately.",
  ["inputs", "histories"], "every history of issue, expiry, key change, tampering, password change", "Tests log in once.",
  ["src/platform/src/auth/token.rs", "src/platform/src/auth/provider.rs"], [("token codec", "src/platform/src/auth/token.rs"), ("session flows", "src/platform/src/auth/provider.rs")])
p("P03", "Server settings change as asked, keep their secrets and stay usable",
  "A change of the server settings through the API sets exactly the settings it names, is taken whole or refused whole, and never leaves a combination backups cannot work with; every other setting, the secret ones included, keeps its value, also over a restart; what is shown are the settings in force without the keys and passwords. A backup asked for is recorded with the destination and encryption in force at that moment, is refused while backups are disabled or another one waits, and is shown with its destination and progress but never its password. Only administrators of the server may do any of this.",
  ["inputs", "histories"], "every request and every history of changes, backups and progress reports", "No test changes settings through the API.",
  ["src/platform/src/settings.rs", "src/platform/src/backups.rs", "src/metadata/src/settings.rs"], [("settings through the API", "src/platform/src/settings.rs"), ("backups through the API", "src/platform/src/backups.rs"), ("stored settings", "src/metadata/src/settings.rs")])
p("P04", "What is saved through the API reads back as it was sent",
  "Reports, dashboards, bookmarks, events, custom events, properties, projects, organizations and accounts are shown exactly as they were last saved, whatever query, filter, segment or panel they hold: a change sets the fields it names and no others, its time and author are recorded, names and ids identify one object each, a deleted one is gone, and no other object changes.",
  ["inputs", "histories"], "every body the API accepts and every history of creating, changing, reading and deleting", "Tests save one object of a few kinds.",
  ["src/platform/src", "src/metadata/src"], [("conversions between API and stored form", "src/platform/src/event_segmentation.rs, funnel.rs, lib.rs, reports.rs"), ("stored form", "src/metadata/src/reports.rs, bookmarks.rs, dashboards.rs, custom_events.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
