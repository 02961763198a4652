#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "SQL clauses come out in canonical order whatever order they were added in",
  "For any sequence of statement-builder calls, the SQL text contains exactly the fragments the caller supplied, each under its own clause keyword, clauses in SQL order regardless of call order, and fragments of one clause in call order joined by that clause's separator. Adding to one clause never drops, duplicates, moves or alters the text of another clause.",
  ["programs", "inputs"], "all programs of builder calls (SELECT/INSERT/UPDATE/DELETE/CTE/UNION/raw clauses, any interleaving and repetition), all dialects, new-line mode on and off",
  "The tests compare a few dozen hand-written statements, nearly all with clauses called in SQL order and each clause touched once; the number of interleavings of ~20 methods is unbounded.",
  ["xsql/stmt.go", "xsql/dialect.go"],
  [("chunk insertion by clause position", "xsql/stmt.go addChunk"), ("assembly of chunks", "xsql/stmt.go String")],
  ["Builder.String()"])
p("C02", "Every argument stays with its own placeholder",
  "For any sequence of builder calls, including sub-queries, CTEs, unions, IN lists, bulk rows and repeated limit/offset, the argument list has one entry per placeholder and the i-th argument is the one the caller supplied for the i-th placeholder of the final text. In Postgres mode placeholders are numbered $1..$n from left to right with none skipped or repeated, and an escaped question mark comes out as a literal one.",
  ["programs", "inputs"], "all programs of builder calls with uniquely tagged arguments, all dialects",
  "Tests check argument order on a handful of fixed statements; misplacement only shows for particular clause interleavings, nesting depths or repeated clauses.",
  ["xsql/stmt.go", "xsql/dialect.go", "xsql/util.go"],
  [("argument insertion at the tail offset", "xsql/stmt.go addChunk / xsql/util.go insertAt"), ("placeholder numbering", "xsql/dialect.go writePg")],
  ["Builder.String()", "Builder.Args()"])
p("C03", "Query caching never changes the SQL that is produced",
  "The SQL text of an unnamed statement depends only on that statement: however many other statements were built and cached before, and even when they were made of the same fragments in other clauses, the text equals what a build without any cache would give. A named statement yields the text first registered under that name in that dialect, names and dialects do not leak into each other, and changing an unnamed statement after its text was produced is reflected the next time the text is asked for.",
  ["histories", "programs"], "all histories of statements built, named, modified and rebuilt in one process, in any dialect",
  "Each test builds a statement with fresh text, so a collision between two different statements, which needs a particular pair, is never provoked.",
  ["xsql/stmt.go", "xsql/cache.go", "xsql/dialect.go"],
  [("query cache lookup and store", "xsql/stmt.go String; xsql/cache.go"), ("invalidation on change", "xsql/stmt.go Invalidate, addChunk")],
  ["Builder.String()", "SQLDialect.GetCachedQuery"])
p("C04", "Recycled and cloned statements are isolated from each other",
  "A statement built after others were closed never contains text, arguments, scan targets, a name or options of an earlier statement. A clone produces the same SQL, arguments and scan targets as its original at that moment, and afterwards changes to or closing of either one never affects the other.",
  ["histories", "programs", "schedules"], "all histories of building, cloning, closing and reusing statements, in any order and from any number of goroutines",
  "Pool reuse depends on the history of sizes and closes in the process; the tests clone one or two statements and never check a recycled one against a model.",
  ["xsql/pool.go", "xsql/stmt.go"],
  [("pooling", "xsql/pool.go getStmt/reuseStmt"), ("copying", "xsql/stmt.go Clone")],
  ["Builder.String()", "Builder.Args()", "Builder.Dest()", "Builder.Name()"])
p("C05", "Concurrent goroutines can build and run statements safely",
  "Any number of goroutines may build, render, clone, execute and close their own statements at the same time in any dialect, sharing the query cache and object pools, without data races, crashes or deadlocks. Each goroutine always gets exactly the SQL, arguments and rows of its own statement.",
  ["schedules"], "all interleavings of goroutines that each own their statements and share dialects, cache, pools and table descriptions",
  "The tests are sequential (one parallel benchmark without checks) and run without the race detector.",
  ["xsql/pool.go", "xsql/cache.go", "xsql/stmt.go", "schema/schema.go"],
  [("sync.Pool and sync.Map", "xsql/pool.go, xsql/cache.go"), ("default dialect", "xsql/dialect.go defaultDialect")],
  ["race detector reports", "Builder results per goroutine"])
p("C06", "Executing a statement delivers each row once and reports every failure",
  "Executing a built statement sends the database exactly its SQL and arguments once, calls the row handler exactly once per returned row in order with the bound targets holding that row, and returns an error whenever the query, a row fetch, a scan or closing the result fails, including failures in the middle of the result and cancelled contexts. In every outcome, a panic of the row handler included, the result set is released, so no connection stays occupied, and a single-row query without rows reports that no row exists.",
  ["fault_sequences", "inputs"], "all result sizes and all points (query, k-th fetch, scan, close, cancellation) at which the database can fail",
  "Tests run on a healthy in-memory SQLite; no test fails a fetch midway or counts open result sets.",
  ["xsql/executor.go"],
  [("row loop and error precedence", "xsql/executor.go Query"), ("single row", "xsql/executor.go QueryRow")],
  ["driver-level log of statements, rows and closes", "sql.DB stats"])
p("C07", "Built statements do to the data what they say",
  "Running built INSERT, UPDATE, DELETE and SELECT statements (with joins, sub-queries, CTEs, unions, grouping, ordering, limits, bulk rows and struct binding) against a database has the same effect and returns the same rows as the same operations on an in-memory model of the tables. Bound variables and struct fields receive the column they were bound to.",
  ["histories", "inputs"], "all histories of data operations over small tables with arbitrary values, keys, NULLs and clause call orders",
  "Executor tests run about twenty fixed statements over fixed rows.",
  ["xsql/stmt.go", "xsql/executor.go"],
  [("statement assembly and execution", "xsql/stmt.go, xsql/executor.go"), ("struct binding", "xsql/stmt.go Bind")],
  ["rows returned by SQLite", "table contents"])
p("C08", "Generated IDs never repeat and always increase",
  "Every ID a generator returns is larger than all IDs it returned before, from any number of goroutines, whether the clock advances, stalls, jumps forward or steps backwards, and also when more IDs are asked for in one time unit than one unit can number. Generators with different machine numbers never return the same ID, and an ID is always positive as a signed 64-bit number.",
  ["schedules", "inputs", "histories"], "all interleavings of callers and all clock behaviours seen by the generator",
  "The tests draw IDs from a well-behaved real clock for a few seconds; backward steps, stalls and exhaustion at chosen points are not sampled.",
  ["pkg/flake/flake.go", "prov.go"],
  [("mutex, sequence and elapsed time", "pkg/flake/flake.go NextID"), ("bit layout", "pkg/flake/flake.go toID")],
  ["sequence of returned IDs per generator"])
p("C09", "An ID tells the machine and the time it was created",
  "Taking an ID apart yields the generator's machine number, a sequence number within its range and a time, and putting the parts together gives the same ID. The reported time of an ID is the clock reading at its creation to the millisecond when IDs are not drawn faster than the clock allows, is never earlier than that reading, and orders like the IDs themselves; the first and last ID reported for a generator are the ones it actually returned first and last. No generator is created that would start in the future or whose machine number is unavailable or refused; one created without a machine number takes the low 16 bits of an address of the host other than loopback.",
  ["inputs", "histories"], "all start times, machine numbers, clock readings up to the end of the time range, and call histories",
  "Tests check one machine number and the current date.",
  ["pkg/flake/flake.go", "prov.go"],
  [("decomposition", "pkg/flake/flake.go Decompose, IDTime, FirstID, LastID"), ("provider delegation", "prov.go NextID, IDTime")],
  ["Decompose, IDTime, FirstID, LastID, Provider.IDTime"])
p("C10", "An ID has one value in every representation and copies are independent",
  "For every ID the number, the decimal string, the quoted and underscored strings, validity, JSON, YAML and database forms describe the same value, whichever way the ID was made and whatever it held before. Parsing accepts exactly the decimal representations of non-zero unsigned 64-bit numbers and rejects everything else with an error, changing or reading one copy of an ID never affects another copy, and copies can be read from several goroutines at once.",
  ["inputs", "histories", "schedules"], "all 64-bit values, all strings, all histories of set/reset/scan/decode on copies of an ID",
  "Tests use a few values and never keep a copy while changing the original, nor read concurrently.",
  ["id.go"],
  [("representation", "id.go ID, idptr"), ("parsing", "id.go Set, ParseID, UnmarshalJSON, UnmarshalYAML")],
  ["public methods of ID"])
p("C11", "Column values survive being written and read back",
  "For every value type offered for columns (IDs, ID lists, nullable numbers, booleans, strings, string lists, string maps, UUIDs, times), writing a value and reading it back through a database gives an equal value, in each form database drivers deliver that column. The zero or empty value is stored as NULL and NULL reads back as the zero value, except that an empty non-nil string list stays an empty list.",
  ["inputs"], "all values of each type, delivered as any of the driver forms for that column type",
  "Tests round-trip one to three sample values per type, mostly without a driver in between.",
  ["types.go", "id.go", "time.go"],
  [("Value/Scan pairs", "types.go, id.go, time.go")],
  ["value read back through database/sql"])
p("C12", "Scanning a column replaces the previous value completely",
  "After a successful scan the destination depends only on the scanned column, never on what the destination held before: NULL gives the zero value and maps and lists contain only the scanned entries. Values copied out of a reused destination earlier are not changed by later scans, and a failed scan of a value leaves earlier copies intact.",
  ["histories"], "all histories of scans into a reused destination (row loops with bound targets)",
  "Every test scans once into a fresh variable.",
  ["types.go", "id.go", "time.go"],
  [("Scan implementations", "types.go, id.go, time.go")],
  ["destination after each scan"])
p("C13", "Values that do not fit are rejected, never silently altered",
  "Scanning or decoding a value that the destination type cannot represent (number out of range, wrong length or type, malformed text or JSON) returns an error; it never stores a truncated, wrapped or unrelated value and never reports success while ignoring the input.",
  ["inputs"], "all driver values and all byte strings for every column type",
  "Tests try one unsupported Go type per Scan and no out-of-range or malformed value.",
  ["types.go", "id.go"],
  [("range and type checks", "types.go, id.go Scan/UnmarshalJSON")],
  ["error and destination after Scan/UnmarshalJSON"])
p("C14", "JSON and YAML encodings of column types round-trip",
  "For every column type and value, encoding to JSON or YAML produces a valid document and decoding it into a variable of the same type, on its own or inside a larger structure, gives an equal value. Numbers are also accepted as quoted strings, and the text and Go-value forms of an integer, boolean, string or optional value denote that value.",
  ["inputs"], "all values of each type, nested in structs, slices, maps and pointers",
  "Tests encode one struct with one set of values.",
  ["types.go", "id.go", "time.go"],
  [("MarshalJSON/UnmarshalJSON/YAML", "types.go, id.go, time.go")],
  ["encoding/json and yaml.v3 output and decode"])
p("C15", "Times are UTC, millisecond-precise and survive text and storage",
  "A time made from now, from a Go time, from milliseconds or by adding a duration is in UTC and truncated to the millisecond, and keeps its instant through string, parse, JSON, database and millisecond conversions, with order preserved. Every supported text form (RFC 3339 with any offset and fraction, date-time, date only) parses to the instant it denotes, the zero time is empty text and NULL, and unparsable text gives the zero time.",
  ["inputs"], "all instants in years 1-9999 and all zone offsets",
  "Tests format one date and parse one fraction.",
  ["time.go", "types.go"],
  [("truncation and parsing", "time.go UTC, ParseTime, String, FromUnixMilli, Scan, Value")],
  ["public methods of Time"])
p("C16", "ID lists behave as sets and leave their inputs alone",
  "Adding and concatenating ID lists gives exactly the set union without duplicates, membership and overlap tests agree with set semantics, sorting orders numerically without losing elements, and conversions to and from strings and numbers keep the elements. Lists derived by adding never change the list they were derived from or each other.",
  ["inputs", "histories"], "all lists of IDs with arbitrary overlap, capacity and derivation history",
  "Tests use lists of two or three elements with no shared backing storage.",
  ["id.go"],
  [("set operations", "id.go IDArray Add, Concat, Contains, Overlaps, Sort")],
  ["IDArray methods"])
p("C17", "Merging structures takes set values and keeps the rest",
  "Merging one model into another overwrites exactly those fields that are set in the source, including ID, time and nullable string fields at any nesting depth, and leaves every other field as it was. The source is never modified.",
  ["inputs"], "all pairs of model values with any subset of fields set, nested structs and pointers",
  "There is a single merge example.",
  ["merge.go"],
  [("type-aware transformers", "merge.go")],
  ["merged destination"])
p("C18", "Equal query-parameter names mean the same query shape",
  "Two parameter sets have the same name only if they have the same base name, the same set positions, enum values, flags, NULL columns, cursor use and non-zero-offset use, and the name always reflects the current settings, also after it was read once or the set was reset. The argument list holds the values in the order set, followed by page or cursor limit, positions report set exactly when they were set, and the caller's data is not modified.",
  ["inputs", "histories"], "all histories of setting, naming and resetting parameters",
  "Two fixed parameter sets are tested; names are never compared pairwise or read before a change.",
  ["params.go"],
  [("name composition and caching", "params.go Name"), ("argument and position bookkeeping", "params.go Set*, Reset")],
  ["QueryParamsBuilder methods"])
p("C19", "List queries return every row in order, or an error",
  "A list query returns exactly the rows the database produced, in order, each scanned into its own value, or an error; it never returns a shortened list as success when fetching fails midway, a row cannot be scanned or the context ends. The result set is always released, a nil or partial result accompanies no success, the caller's result object is only filled on success, and a reported error keeps its cause.",
  ["fault_sequences", "inputs"], "all result sizes and all points at which query, fetch, scan or close fails",
  "Without a database server no existing test executes a list query; failures midway are never simulated.",
  ["query.go"],
  [("row loop", "query.go ExecuteListQuery"), ("result population", "query.go ExecuteQuery*")],
  ["driver-level log, returned list and error"])
p("C20", "Walking pages visits every row exactly once",
  "Following next offsets or cursors from the first page until no next page is reported visits every row of an unchanging result exactly once, in order, and ends, for every page size and row count; the page information handed to the caller matches the limit and offset that were sent to the database. Cursors decode to exactly the values they were made of, including full 64-bit integers, and malformed cursors are rejected.",
  ["inputs", "histories"], "all row counts, page sizes, argument styles (parameter sets, plain and named arguments) and cursor contents",
  "No test walks pages; one cursor with a small number is decoded.",
  ["query.go", "params.go"],
  [("page accounting", "query.go ExecuteQueryWithPagination, ExecuteQueryWithCursor"), ("cursor codec", "query.go EncodeCursor, DecodeCursor")],
  ["SetResult arguments", "SQL arguments seen by the driver"])
p("C21", "Transactions are all-or-nothing and stay on their connection",
  "Everything executed through a transaction provider happens inside that one transaction: it is invisible outside until commit, fully visible after a successful commit, and gone after rollback, close without commit, or cancellation. The requested transaction options reach the database, commit or rollback without a transaction and nested begins fail, finishing twice is harmless and has no second effect, closing a transaction provider leaves the parent usable, its IDs and their times come from the parent's generator, and failures to begin, commit or roll back are reported.",
  ["histories", "fault_sequences", "schedules"], "all histories of begin/exec/query/commit/rollback/close on parent and transaction providers, with failures at each step",
  "Provider transactions need a server and are not tested here; no failure is injected anywhere.",
  ["prov.go"],
  [("transaction provider", "prov.go BeginTx, Commit, Rollback, Close")],
  ["driver-level transaction log", "SQLite table contents"])
p("C22", "Closing a provider releases everything, and only once",
  "After a provider is closed its connections and background activity are gone; closing again is harmless, and a close that fails is reported and can be retried, and other handles of the same database stay usable. Failed attempts to open, migrate or create a provider leave no open connections behind, keep-alive pings continue while the provider is open even after failed pings, and closing concurrently with pings or queries causes no crash or race.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of pings, queries and closes, and failures of ping and close, over virtual time",
  "No test waits for the one-minute keep-alive period or inspects goroutines and connections after close.",
  ["prov.go", "db.go"],
  [("keep-alive and close", "prov.go keepAlive, Close"), ("open", "db.go Open, NewProvider")],
  ["goroutine dumps", "driver-level open connections and pings in virtual time"])
p("C23", "A connection string leads to the requested server, user and database",
  "Parsing a connection string yields the driver, host, user, password, database and parameters it contains, for any characters that URL escaping allows, and opening with a database name connects to that database with all other settings unchanged, whatever form the source string has. Unsupported drivers, unparsable strings and unreachable servers are reported as errors.",
  ["inputs", "configurations"], "all well-formed source strings (any user, password, host, parameters, with and without query part, quoted or padded) and database names",
  "Tests parse two strings and open none successfully without a server.",
  ["db.go"],
  [("parsing and database selection", "db.go ParseConnectionString, Open")],
  ["parsed Source", "startup parameters received by a wire-level server"])
p("C24", "Missing rows are recognised as not-found, other errors are not",
  "An error that means 'no row' is recognised as not-found however it is wrapped, keeps the table, the ID and the original cause, and stays recognisable after further wrapping; any other error, and no error, is passed through unchanged in meaning and never recognised as not-found.",
  ["inputs"], "all error chains (wrapping depth, wrapper kinds, joined errors) and ID types",
  "Tests check a few fixed errors.",
  ["types.go"],
  [("classification", "types.go CheckNotFoundError, IsNotFoundError, ErrorNotFound")],
  ["returned error"])
p("C25", "Schema listing reports exactly what the catalog holds",
  "Listing tables, views and foreign keys returns exactly the catalog entries that match the schema and table filters (ignoring letter case), each once and in name order, with columns in ordinal position, nullability, lengths, indexes, index columns (for Postgres the key columns in the order of the key) and single-column primary key as in the catalog. Results are the same for every row order the database returns, for both database kinds, and for repeated calls.",
  ["inputs", "histories"], "all catalogs (schemas, tables, columns, indexes, keys with arbitrary names), row orders and filters",
  "Schema provider tests need database servers and fail in this environment; the ones that exist look at one fixed schema.",
  ["schema/provider.go", "schema/postgres.go", "schema/sqlserver.go", "schema/schema.go"],
  [("catalog readers", "schema/provider.go ListTables, ListViews, ListForeignKeys"), ("catalog queries", "schema/postgres.go, schema/sqlserver.go")],
  ["returned tables compared with the served catalog"])
p("C26", "Dependency discovery finds exactly the tables reachable by foreign keys",
  "Listing tables with dependencies returns the selected tables plus every table reachable from them over foreign keys, each once, and nothing else, for any reference graph including cycles, self references and cross-schema references, and it always ends. Columns that are foreign keys carry their reference, and earlier listings on the same provider do not influence the result.",
  ["inputs", "histories"], "all foreign-key graphs, filters and call histories on one provider",
  "No test exercises discovery without a server; map iteration order makes a single run unrepresentative.",
  ["schema/provider.go"],
  [("graph walk", "schema/provider.go discover, discoverTable")],
  ["returned tables compared with reachability in the served catalog"])
p("C27", "Schema reading surfaces database failures and releases its results",
  "If any catalog query, row fetch or scan fails, listing returns an error and no partial result; it never panics and never reports success. Whatever the outcome, no result set or connection stays occupied afterwards.",
  ["fault_sequences"], "all points in the sequence of catalog queries and row fetches at which the database can fail, and inconsistent catalogs",
  "There is no fault injection in the tests.",
  ["schema/provider.go"],
  [("error returns", "schema/provider.go")],
  ["returned error", "sql.DB stats and driver-level open rows"])
p("C28", "Generated models compile and read each column into its own field",
  "For any catalog of tables and views with supported column types whose names give distinct Go names, the model and schema packages generated by xdbcli are valid Go that compiles once goimports has completed the imports, declare one type per selected table and one field per kept column with a Go type that holds every value of its SQL type (NULL included when nullable) and a tag naming the column, and scan columns in the order in which the generated table description lists them. Table descriptions, column definitions, the dialect and the map of all tables match the catalog. Generation is deterministic, honours filters, overrides, dropped columns and suffixes, and a failure or an unsupported type is reported with a non-zero exit status.",
  ["inputs", "configurations"], "all supported catalogs and generator options",
  "Tests generate from two fixed JSON catalogs and compare fragments; nothing compiles the output.",
  ["internal/cli/schema/schema.go", "internal/cli/schema/template.go", "internal/cli/schema/types.go", "schema/schema.go"],
  [("generator and templates", "internal/cli/schema"), ("type mapping", "internal/cli/schema/types.go toGoType")],
  ["generated files type-checked and executed against rows"])
p("C29", "Table descriptions build queries over exactly their columns",
  "Statements started from a table description address that table in its dialect and select exactly the requested or all declared columns in declared order; aliased selection prefixes every column, puts NULL in place of exactly the excluded ones, and keeps the column count and order. A shared description can be used by many goroutines at once and is never modified by use.",
  ["inputs", "schedules"], "all column lists, prefixes, NULL sets and concurrent use of one description",
  "Tests use one table sequentially.",
  ["schema/schema.go"],
  [("column list helpers", "schema/schema.go TableInfo")],
  ["Builder text", "race detector reports"])
p("C30", "Notifications reach the right subscriber exactly once and in order",
  "Every notification the database sends on a topic while a subscription to it is active is handed to that subscription's callback exactly once, in order, with its topic, raw payload and decoded payload, and to no other subscription's callback. After its context ends a subscription stops receiving and the topic is unsubscribed; after the listener is closed all its background activity ends, and malformed payloads never stop delivery. While the database cannot be reached it is tried again after the minimal interval, which doubles up to the maximal one.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of subscribing, notifying, cancelling, reconnecting and closing with any number of topics",
  "The listener needs a Postgres server and has a single test that is not run here.",
  ["pkg/notifier/listener.go"],
  [("delivery loop", "pkg/notifier/listener.go Listen"), ("payload decoding", "pkg/notifier/listener.go parsePayload")],
  ["callbacks compared with what a wire-level server sent"])
p("C31", "Migrations run once each, in order, and failures are reported",
  "Migrating brings the database from any recorded version to the requested version, or to the newest, by running exactly the missing steps in order and recording the version reached; running again changes nothing and succeeds. A forced version is recorded before migrating, a missing directory, unsupported database, failing step or dirty state is reported as an error, and no empty source causes any database access.",
  ["histories", "fault_sequences", "configurations"], "all starting versions, targets, forced versions and failing steps",
  "Migration tests need servers.",
  ["migrate/migrate.go", "db.go"],
  [("migration driver", "migrate/migrate.go Migrate")],
  ["statements received by a wire-level server, recorded version"])
p("C32", "Printed output is complete and machine-readable",
  "Printing any supported object as JSON or YAML produces a document that decodes to an equal object, and printing it as a table shows every column, index and key of the object once, in order, with its attributes. Objects that cannot be encoded give an error in every format that can fail, and nothing is silently omitted.",
  ["inputs"], "all tables, column lists, indexes and foreign keys with arbitrary names and attributes",
  "Tests print one fixed table.",
  ["pkg/print/print.go", "pkg/print/schema.go"],
  [("printers", "pkg/print")],
  ["printed bytes"])
p("C33", "The command line tool reports the database schema faithfully",
  "Each schema command connects to the named database, prints exactly the tables, views, columns or foreign keys that match its filters in the requested format, writes generated files only where asked, exits with success only if everything worked, and exits with a failure and a message when the source is missing, the server is unreachable or a query fails.",
  ["inputs", "configurations", "fault_sequences"], "all commands, flag combinations, catalogs and server failures",
  "CLI tests run with a mocked provider; the whole program is never run against a server here.",
  ["cmd/xdbcli/main.go", "internal/cli/cli.go", "internal/cli/schema/schema.go"],
  [("commands", "internal/cli/schema/schema.go"), ("connection", "internal/cli/cli.go DB, SchemaProvider")],
  ["process exit status, stdout and files, with a wire-level server"])
p("C34", "Metadata and key-value sets behave as maps with stable order",
  "Merging adds every entry of the other map with the other's value winning and never changes the other map; key, range and pair views list exactly the entries, the ordered ones in ascending key order with each value next to its key, stop when the visitor says so, and work on empty and nil maps.",
  ["inputs"], "all maps, including nil and empty",
  "Tests use maps with one or two entries.",
  ["types.go"],
  [("map helpers", "types.go Metadata, KVSet")],
  ["returned keys, pairs and merged maps"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
