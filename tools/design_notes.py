# D[id] = (workload and bounds, left out). Read by gen_design.py.
D["C01"] = ("25,000 random programs (400,000 thorough) of up to about 40 builder calls over all five statement starts and four dialects, nested to depth 2, with repeated clauses, raw clauses, sub-queries, CTEs and unions in any order, calls that read or invalidate the text half way, quoted literals whose white space must survive, long fragments and IN lists from none to 1,200 values, Bind of structures made by reflection with fields of many kinds, page numbers at the limits of int; then every permutation of seven sets of six clauses in four dialects. Text is compared after folding white space outside quotes; line-break layout is compared only with itself (C03).",
    "`Paginate(1)` after `Paginate(n>1)` keeps the earlier OFFSET, as upstream documents no reset; a text renamed with SetName after it was produced; UseNewLines on a dialect while others use it.")
D["C02"] = ("The C01 workload. Every placeholder carries a label in the fragment around it which names its argument, so an argument that moved is named directly and not only by differing from the model. Statements with more than 66,000 placeholders check the numbering beyond 16 bits.", "A question mark inside a quoted literal, which the builder documents as a placeholder unless escaped.")
D["C03"] = ("All programs of up to two calls (three in the thorough tier) over a 32-call alphabet made of the fragments a and b, in shuffled order, twice, with both layouts, in process with one shared cache, 12,000 random longer ones, 6,000 steps with names against a map model, 3,000 statements changed after rendering, and 400,000 (3 million) different small texts in one dialect, where a narrowed cache key shows; Postgres fragments whose question marks are operators, with and without arguments, in both orders of first use. The oracle builds the same program in a dialect without history.", "")
D["C04"] = ("250 histories (4,000) of 60 steps over a pool of up to 12 live statements, many with ten and more clauses, some with a hoard of statements in use so that new ones do not come from the pool, named ones among them whose clones must not take the name; after each step every live statement is compared with the model of its own calls. Then 3,000 close/build pairs which also look at the backing arrays of closed statements through slices taken before.", "")
D["C05"] = ("Four rounds (24) of 4 to 32 goroutines, 400 to 1,500 statements each, from a corpus of programs sharing cache entries; build, render, clone, run (rows echoed by the driver), failing runs (refused, empty, scan error, cancelled) and close; names raced by eight goroutines. Two statements built after a failed run must be two objects.", "UseNewLines on a shared dialect during use (documented as set-up).")
D["C06"] = ("Every fault position (query, each row, bad value, close, context before and during) for Query, QueryRow, Exec and their closing forms, 0 to 12 rows, with and without handler and targets, embedded structures bound; handlers that panic or end their goroutine at a random row, after which nothing may stay occupied. Injected errors wrap sentinels with other meanings (io.EOF, ErrNoRows, context errors, ErrBadConn), and single results have up to 70,000 rows.", "")
D["C07"] = ("Histories of inserts, updates, deletes and selects of random shape over three tables in real SQLite, compared statement by statement with a model evaluator written independently; where both disagree the same query written by hand decides whether the engine or the builder deviates. Rows are also bound into random structures made by reflection: embedded values and pointers to any depth, shadowed names, and twin types of one name.", "SET sub-queries that read the updated table (engine defined).")
D["C08"] = ("Scripted clocks (advance, stall, jumps of up to years, steps back, more IDs than one tick numbers) in virtual time, 2 to 32 goroutines on one generator with the race detector, generators for different machines, providers sharing the default generator, and real time. An offline checker orders calls by their intervals: an ID drawn after another call returned must be larger.", "Clock readings before the start time or beyond the range panic by design and are checked to do so.")
D["C09"] = ("Six start times, random machine numbers, clocks of the C08 kind with bursts of more IDs than a tick has; every ID is taken apart with independent arithmetic and its time compared with the clock reading; first and last ID read concurrently; settings that must be refused; generators without a machine number run by a helper program on hosts of their own (user and network namespaces with chosen addresses).", "Machine numbers of test programs, which the package derives from the program name; hosts whose addresses cannot be listed.")
D["C10"] = ("IDs made by every constructor, setter, scan and decoder over boundary and random numbers, 100,000s of texts decided by an arbitrary-precision parser, histories of copies, readers in several goroutines under the race detector.", "Leading zeros (accepted, value kept); negative int64 bit patterns in Scan (documented storage form).")
D["C11"] = ("Every column type, boundary and random values, through SQLite with several declared types and through a recording driver which delivers each form (int64, float64, string, bytes, time, bool, nil).", "Bool false writes NULL by design.")
D["C12"] = ("Histories of scans of random forms into reused destinations; every copy taken earlier is re-checked and the scanned bytes are overwritten afterwards; a destination its owner has changed is scanned again with the same value.", "")
D["C13"] = ("Numbers around every boundary, texts, bytes, JSON and YAML damaged at random; an exact rational oracle decides what an accepted value must be.", "YAML fractions for integers, which the YAML library truncates itself; white space accepted by encoding/json.")
D["C14"] = ("Random values of every type alone, in structures, lists and maps; JSON and YAML; documents are checked to be valid before decoding.", "Invalid UTF-8, NaN and infinities, which the formats cannot carry; nil and empty collections are equal where the format has one form.")
D["C15"] = ("Instants over the whole range of years 1 to 9999 and at millisecond borders, texts written by independent arithmetic with any offset and fraction, with the process zone set to places with and without daylight saving; times that carry other zones or were decoded from a text are written and read again.", "")
D["C16"] = ("Histories of up to 40 derivations (Add, Concat, conversions) from lists with spare capacity, repeated elements and shared prefixes; all earlier lists are compared with frozen copies after each step, conversions of earlier steps included.", "")
D["C17"] = ("Random models with nested structures, pointers, maps and slices of every special type merged in every set/unset combination, a third of them with source values almost equal to those they replace (a nanosecond later, another letter case, one bit).", "Aliasing of slices and maps inside the merge library beyond one Merge.")
D["C18"] = ("20,000 histories of builder calls including Reset and reading the name half way; names of all histories are joined and equal names must have equal shapes, in both directions through fresh rebuilds. Lists are passed as parts of longer ones of the caller, null columns and flags in lists of up to 24 that differ in one element, and lists read before a Reset are compared again at the end; positions out of range must be refused, and parameters are also taken from requests that carry them.", "Names of NULL columns that contain quotes.")
D["C19"] = ("Random results of 0 to 12 rows through five kinds of handles, every fault (query, fetch, value, refused and panicking scan, cancellation before and during) at every position, errors that wrap or quote EOF, cancellation or not-found, lists kept and compared again later, results of several hundred rows.", "")
D["C20"] = ("Every page size up to a bound for every row count up to a bound over SQLite, random larger ones, rows with equal sort keys, cursors of random typed values, damaged cursors, cursors decoded again after the caller changed the first result, offsets up to 2^32.", "Integral floats of 2^53 and more; empty and null cursors; page numbers beyond uint32.")
D["C21"] = ("Histories of statements in and around transactions with faults at begin, commit and rollback, options, cancellation, racing finishers; SQLite shows visibility from a second connection. Injected errors wrap sentinels with other meanings.", "")
D["C22"] = ("1,500 (30,000) provider lives in virtual time with failing and hanging pings, transactions left open or ended without a close, 1 to 4 closers and users at the exact tick; 300 (4,000) attempts to open against servers that fail at every statement, with and without migrations; two handles of one database, of which one is closed while the other is used.", "The pinned connection of the SQL Server migration driver, which offers no way to release it.")
D["C23"] = ("Strings built from random users, passwords, hosts, databases and parameters in URL and key/value form, user names padded with spaces, with parameters given twice or in other letter case, parsed again after the caller changed the first result, opened against wire-level servers which record the login.", "SQL Server users with a backslash (NTLM), characters outside the BMP, a path and a dbname parameter at once.")
D["C24"] = ("30,000 errors built by nesting 13 wrappers up to depth 5 and again after classification.", "Causes behind wrappers that do not unwrap, told only by their text.")
D["C25"] = ("Catalogs of up to 12 tables and views with unusual names (letter case, scripts, quotes, spaces at both ends, percent signs), comments and lengths, served in random row order for both database kinds, filters in other letter case, repeated calls on one provider, between which the catalog is altered and the caller spoils the lists it received; large catalogs (over 1,000 tables, 250 columns, indexes with many columns). Queries of the SQL Server indexes are executed by SQLite over tables holding the catalog (CROSS APPLY and FOR XML PATH rewritten), so that the text of the query is judged, not only the decoding of its rows. The catalogs executed hold partitioned tables, tables and views without columns, and indexes with columns hidden from the listing or only INCLUDEd, whose key is in another order than the table; schemas and tables named like the server's own (pgboss, sys_old, pg_, PG) are among them.", "Postgres indexes of expressions alone; names with dots, or commas in indexed columns; SQL Server index columns are compared as sets, INCLUDEd ones are not generated there; the type of dependency-only tables and of views.")
D["C26"] = ("Graphs of chains, stars, cycles, cliques, self references and schemas that share table names, some of 400 tables of which most are selected; listings before the one that counts, between which the catalog is altered and the results spoiled; keys of several columns, and keys of one name in several tables and schemas, from which the query for foreign keys, executed by SQLite over the server's own catalogs, picks its rows.", "")
D["C27"] = ("For each catalog and each listing: every query fails once, every row of every result fails once, every column delivers an unusable value once, closes fail, with errors that wrap sentinels with other meanings; the driver counts open results and connections.", "")
D["C28"] = ("60 (600) generator runs over random catalogs and options; tables of up to 260 columns, now and then a catalog of 270 tables, up to seven schemas of seven tables, lengths up to 2^31-1; each generated pair of packages is type checked, compiled, its column definitions compared field by field with the catalog, executed and reads rows with extreme values through database/sql.", "Model and schema in one package, same table name in two schemas, a column named table, quotes in names combined with overrides, names that collide in Go, imports (added by goimports as the Makefile does).")
D["C29"] = ("Random descriptions in each dialect, all builder starts, exclusion sets of every kind, stars, expressions and repeated columns selected, queries run on SQLite for column count and order, goroutines sharing one description under the race detector.", "")
D["C30"] = ("Listener histories of several topics with bursts, slow and parked callbacks, cut connections, refused LISTENs, cancels and closes at random moments; payloads valid, damaged, empty surrounded by white space, and repeated ones whose parsed values a callback changes; the queue behind a busy callback is checked entry by entry; the times of attempts to reach a server that turns everybody away, for intervals given and left out.", "Notifications sent while the connection was being replaced; one callback that started right before a cancel; topics over 63 bytes.")
D["C31"] = ("Histories of migrations from random versions with forced versions, missing steps, failing scripts, cut connections at every statement, several migrators at once, odd directory names; databases that are closed or cannot be reached.", "SQL Server migrations; errors of the advisory lock without the session ending.")
D["C32"] = ("Random catalogs and structures printed by every printer, JSON, YAML and table, into buffers, short and failing writers, writers that fail once in the middle; long lists, indexes of up to 44 columns, nil and empty values, one table listed twice.", "Short-writing writers for JSON; nil tables.")
D["C33"] = ("Hundreds of runs of the built program with random flags against random catalogs with faults at each statement, at one statement only, and at every statement of one kind (columns, keys, views, ...).", "Unknown output formats and empty filter values; standard output of failed runs.")
D["C34"] = ("Random maps, empty and nil ones, visitors that stop at every position.", "")
