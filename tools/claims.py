# Claimed properties: T[id] = (technique, note). Read by gen_manifest.py.
T["C01"] = ("runtime monitoring: random and enumerated builder programs, an independent clause model as oracle over the produced text",
    "Every fragment carries a unique tag, so dropped, moved, duplicated and altered fragments are all visible.")
T["C02"] = ("runtime monitoring: random builder programs with uniquely tagged arguments, oracle scans the produced text for placeholders",
    "Arguments are unique sentinels; text and argument list are compared position by position.")
T["C03"] = ("runtime monitoring: histories of statements in one process against a cache-free reference process model",
    "Histories include fragments moved between clauses, named statements and modifications after rendering.")
T["C04"] = ("runtime monitoring: histories of build, clone, modify, close and reuse checked against a value model of every live statement",
    "Pool reuse is forced by single-threaded histories with GC disabled; all live statements are re-checked after each step.")
T["C05"] = ("race detector plus per-goroutine oracle over statements built, cloned, executed and closed concurrently",
    "Interleavings are those the scheduler produced under injected yields; the number is in the evidence file.")
T["C06"] = ("runtime monitoring at the driver boundary with fault injection at every row, scan and close position",
    "The recording driver sees every query, row fetch and close; faults are injected one at a time.")
T["C07"] = ("runtime monitoring: histories of built statements executed on SQLite, effects and rows compared with an in-memory model of the tables",
    "The model evaluates the same statements independently; a hand-written text of the same query arbitrates engine deviations.")
T["C10"] = ("race detector plus runtime monitoring: IDs made in every way, parsed texts, histories of copies and concurrent readers against a number model",
    "An arbitrary-precision parser decides which texts must be accepted.")
T["C11"] = ("runtime monitoring: values written and read back through SQLite and through a driver delivering every form drivers use, compared with the value written",
    "The recording driver shows what was stored, so NULL handling is observed directly.")
T["C12"] = ("runtime monitoring: histories of scans into reused destinations, all earlier copies re-checked after each scan",
    "Byte buffers are overwritten after each scan as drivers do.")
T["C13"] = ("runtime monitoring: fuzzed and damaged inputs, an exact rational-number oracle decides whether an accepted value denotes the input",
    "Every accepted input must denote exactly the stored value; rejected ones leave the previous or the zero value.")
T["C14"] = ("runtime monitoring: fuzzed values encoded and decoded alone and inside structures, compared with the original",
    "Text the codec library itself cannot carry is skipped and counted.")
T["C15"] = ("runtime monitoring: fuzzed instants through all conversions and texts written by independent arithmetic",
    "The oracle computes the instant of every generated text itself.")
T["C16"] = ("runtime monitoring: histories of derived lists, every list re-checked against its frozen contents after each step",
    "Lists with spare capacity and shared prefixes are included, where aliasing shows.")
T["C17"] = ("runtime monitoring: random models merged and compared field by field with an independent merge",
    "The source is dumped before and after.")
T["C18"] = ("runtime monitoring: histories of parameter builders; names of all histories are joined on equality and their shapes compared",
    "Every name is also compared with that of a fresh builder with the same settings.")
T["C24"] = ("runtime monitoring: errors nested in random chains of wrappers around known causes",
    "The cause is known by construction.")
T["C34"] = ("runtime monitoring: random maps merged and viewed, compared with Go maps",
    "Visitors stop at every position.")
T["C19"] = ("runtime monitoring: list and single-row queries through pools, connections, transactions and providers over a fault-injecting driver, delivered rows compared with the rows the driver handed out",
    "Faults: query, fetch at a row, bad value, refusing and panicking row scan, cancellation before and during; released result sets are counted at the driver.")
T["C20"] = ("runtime monitoring: page walks by offset and by cursor over SQLite for every page size and row count up to a bound, and cursor round trips with damaged cursors",
    "The rows of the table are known to the monitor; numbers are compared exactly.")
T["C21"] = ("runtime monitoring: random transaction histories over a recording driver with begin/commit/rollback faults, racing finishers under the race detector, and visibility on SQLite",
    "The driver log tells on which connection and inside which transaction each statement ran.")
T["C22"] = ("runtime monitoring in virtual time: open, ping, failing pings, close, failing and repeated close, concurrent use, with goroutine and connection counts, under the race detector",
    "Virtual time comes from testing/synctest, so keep-alive periods are exact.")
T["C25"] = ("runtime monitoring: random catalogs served to the real catalog SQL by an emulated information_schema, listings compared with the catalog under permuted row order",
    "The SQL of the reader is executed, not matched by text.")
T["C26"] = ("runtime monitoring: random foreign-key graphs served to the reader, result compared with reachability computed by the monitor",
    "Cycles, self references, cross-schema references and earlier listings are all generated.")
T["C27"] = ("runtime monitoring with fault injection at every query, row, column value and close of the schema reader",
    "Each fault position of each listing is tried once per catalog.")
T["C29"] = ("race detector plus runtime monitoring: statements from one and from shared table descriptions compared with the declared columns, executed on SQLite, the description compared with its copy (spare capacity included) after use",
    "Goroutines share descriptions and exclusion sets with injected yields.")
T["C32"] = ("runtime monitoring: random schema objects and structures printed in every format, decoded or parsed back and compared, with failing writers and unencodable values",
    "Table output is parsed back into rows by column header.")
T["C23"] = ("runtime monitoring: connection strings built from chosen parts, parsed and opened against wire-level Postgres and SQL Server stand-ins that record the login",
    "Login, password, database and settings are compared with the parts the string was built from.")
T["C30"] = ("runtime monitoring with fault injection: listener histories against a wire-level server (bursts, cut connections, refused and late subscriptions, closes), every notification tracked by id, goroutine dumps, race detector",
    "Loss is judged only while the server was certainly delivering; duplicates, order and topic always.")
T["C31"] = ("runtime monitoring with fault injection: histories of migrations against a wire-level model of Postgres (transactions, advisory lock, table of versions) compared with a reference plan",
    "Faults at every statement position, concurrent migrations, unusual directory names.")
T["C28"] = ("runtime monitoring: the built xdbcli generates code from random catalogs on wire-level Postgres and SQL Server stand-ins; the generated packages are compiled and executed, scan destinations, tags, descriptions and rows read through database/sql compared with the catalog",
    "Imports are completed as goimports does, the step the Makefile documents; model and schema are generated into two packages.")
T["C33"] = ("runtime monitoring with fault injection: the built xdbcli program is run against wire-level Postgres and SQL Server stand-ins serving random catalogs; its exit status, output, messages, logins and files are compared with the catalog",
    "Faults: statement k fails, connection cut, login rejected, server away, full output device, output folder in the way, wrong use.")
