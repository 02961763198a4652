#!/usr/bin/env python3
"""Writes known_findings.json: recorded findings (none suppressing unless listed
in FINDINGS) and one line per repair committed in /repo."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
FIXED = """
C09 ed8e2bd LastID was read outside the generator's lock (data race, torn history)
C01 5c64290 SubQuery wrote its text around the chunk list, losing clause order and arguments
C01 83df0e3 UNION added before ORDER BY/LIMIT came out after them depending on call order
C02 2c17c7c \\? stayed escaped in Postgres clauses without arguments
C01 eff1cc5 ten raw clauses in a row took the position of the next standard clause
C04 f9b6230 a clone lost its clause position and new-line option
C03 9cbeb58 statements with equal fragments in different clauses shared one cached text
C06 48a349c fields of embedded structs of unexported type were not bound
C06 dc1e859 a row handler that panicked left the result set open and its connection occupied
C10 c1e9279 UnmarshalJSON/Reset/Set on one copy of an ID changed other copies; String raced
C12 2306469 scanning NULL into ID, ID32, Int64, Int32, Float or Bool kept the previous value
C12 65cdd4a Strings, Metadata and KVSet scanned into the map or slice they already held; Strings rejected bytes
C13 02ccf9b UUID took any byte length, and its 36-byte text form was stored as raw bytes
C13 2f6ecb9 numbers out of range were wrapped or truncated when scanned
C13 86010c0 Bool decoded JSON values that are no booleans
C13 eb82352 Time.Scan reported success for text that is no time
C15 0e7f491 Time decoded from JSON kept the local zone
C14 cd5a32a Time was encoded in YAML as an empty object
C14 000a682 Float lost precision in JSON
C16 3da91cd IDArray.Add wrote into the spare capacity shared with other lists
C19 bce0805 ExecuteListQuery returned a shortened list as success when a row fetch failed
C20 4354f47 a result without limit reported a next page, so walking it never ended
C18 f5a94d1 the name of query parameters stayed as first read after further settings; Reset kept NULL columns
C18 e9f727b different NULL columns gave equal names, and naming sorted the caller's slice
C20 a369370 64-bit integers in cursors were decoded as rounded floats
C22 3bbaccf Postgres migration kept its pinned connection
C31 1189750 failing migrations whose message contains 'no change' were reported as success
C22 bd05676 keep-alive pings went on after Close, and Close raced with use
C21 0c74fc1 BeginTx ignored the requested transaction options
C23 d610062 Open connected to the database of the source instead of the requested one for some forms
C22 402a712 a failed Open or NewProvider left the database handle open
C23 18b97d6 the database in the path of a postgres:// string was not parsed
C27 807d8cb result sets of the schema reader stayed open
C25 6b44b85 tables with quotes in their names broke the column query
C26 e4ae71b tables of earlier listings were added to later results, discovered tables had no indexes
C26 8414119 only one foreign key per column was followed
C27 0421b0f an index over a column that is not listed crashed the reader
C25 97108d6 unlimited columns were listed with length -1
C27 42a3b45 an unsupported provider crashed with a nil dereference
C29 276db5b AllColumns cached into the shared table description (data race)
C30 9ebbe61 notifications were delivered to whichever subscription read them first, and goroutines outlived Close
C28 0cc2400 models of several schemas repeated declarations in every file, in map order
C33 d983958 columns --views printed two documents and ignored print errors
C32 2581272 write errors and unencodable values in table format were dropped
C32 204c209 printing an unsupported type as YAML panicked
C13 5861c0b YAML numbers with a fraction or above 64 bits were decoded into an ID as another number
C25 10a25fd SQL Server tables with descriptions were not listed
C25 6c619f0 indexes were listed in the order the database returned them
C25 1003c1f SQL Server tables named as a view of another schema were taken for views
C25 e9228c9 Postgres indexes of same-named tables in several schemas were mixed
C25 1e3e6ae Postgres foreign keys with the same name in several schemas were mixed
C20 971be38 a decoded cursor that was encoded again gave another integer (2^63 became 9223372036854776000)
C23 6f2ad53 a quoted source read from a file with a final newline kept its closing quote, in the last setting
C23 911f43c Source.Database was empty when a SQL Server source wrote Database= in another case
C28 d095b7e tinyint columns (0 to 255) were generated as int8: rows with values above 127 could not be read
C01 266fd81 a hundred raw clauses or unions ran into the next standard clause: text lost or merged
C02 8553b13 setting LIMIT or OFFSET again replaced the argument of an expression added to the clause
C16 ef79487 Concat kept an ID that occurs twice in the second list twice
C31 98b42c8 directories with %, # or ? in the name were not found, or migrations were read from another directory
C25 4d4ad3f indexes and primary keys of partitioned Postgres tables were not listed
C25 e80d233 a Postgres view without columns made every listing of views fail
C25 679ccfc the columns of Postgres indexes came in any order and with INCLUDEd ones, so that PRIMARY KEY (id) INCLUDE (x) was no primary key
C25 8bf18f7 Postgres foreign keys of several columns were listed with every pairing of their columns, and keys of one name in a schema were mixed
""".strip().splitlines()
out = {"findings": FINDINGS, "fixed": []}
for l in FIXED:
    pid, commit, what = l.split(" ", 2)
    out["fixed"].append("fixed: property=%s %s %s" % (pid, commit, what))
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
