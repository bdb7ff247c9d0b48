#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
ENC="sequel/encoding/"
GEN="cmd/sqlgen/codegen/generate.go"
DB="cmd/sqlgen/codegen/templates/db.go.tpl"
OP="cmd/sqlgen/codegen/templates/operator.go.tpl"
CMP="cmd/sqlgen/internal/compiler/parser.go"
CPL="cmd/sqlgen/internal/compiler/compiler.go"

p("C01","Scalar columns decode losslessly or report an error, never silently altered",
 "Scanning any database/sql driver value (NULL, integer, float, bool, text, bytes, time) into an integer, unsigned, float, bool, string, rune, byte or rune array, or time column - plain, named or pointer typed - either stores exactly the value the source denotes or returns an error; it never panics and never wraps, truncates or flips the value. A float column holds the nearest representable number, and a finite number too large for it is an error; any non-zero integer is true for a bool column; a 64-bit unsigned column reads a negative integer as the bit pattern generated code stores for large values. In-range values in the column's own kind, and their decimal bytes, are never refused. NULL stores the zero value in a plain column and nil in a pointer column.",
 ["inputs"],"For every scalar Go type and its named and pointer forms, and every driver value of every driver kind, including the extremes of each width.",
 "The tests scan a handful of in-range values; width boundaries, cross-kind sources and malformed text are an unbounded product of types and values.",
 [ENC+"int.go",ENC+"uint.go",ENC+"float.go",ENC+"bool.go",ENC+"string.go",ENC+"time.go",ENC+"rune.go",ENC+"rune_array.go",ENC+"byte_array.go"],
 [("IntScanner..Uint64Scanner",ENC+"int.go"),("Float32Scanner/Float64Scanner",ENC+"float.go"),("BoolScanner",ENC+"bool.go"),("StringScanner",ENC+"string.go"),("TimeScanner",ENC+"time.go")],
 ["return of Scan and the destination variable"])
p("C02","A scan fully replaces the destination and keeps no reference to driver memory",
 "After a successful scan, the value held by a column depends only on the value scanned, not on what the destination held before: no stale tail of an array, no left-over map, slice or struct content; text gives the same value whether it comes as a string or as bytes. The stored value stays the same when the driver afterwards reuses or overwrites the byte buffer it handed out, as database/sql allows, and scanning never modifies that buffer. A value read from the column before does not change when the next one is scanned into the same variable.",
 ["histories","inputs"],"For every scannable column type, every previous content of the destination, every accepted source value, and every later reuse of the source buffer.",
 "Tests scan once into a fresh variable from a buffer that is never reused, so neither stale contents nor aliasing can be seen.",
 [ENC+"byte_array.go",ENC+"rune_array.go",ENC+"json.go",ENC+"string.go",ENC+"pointer.go",ENC+"text.go","sequel/sqltype/string_slice.go","sequel/driver/postgres/pgtype/string_array.go"],
 [("ByteArrayScanner",ENC+"byte_array.go"),("RuneArrayScanner",ENC+"rune_array.go"),("JSONScanner",ENC+"json.go"),("StringScanner",ENC+"string.go"),("scanBytes of the slice types","sequel/sqltype")],
 ["destination variable before and after the source buffer is poisoned"])
p("C03","PostgreSQL array columns encode and decode faithfully",
 "Encoding any Go slice of strings, byte strings, bools, integers or floats as a PostgreSQL array yields a literal that PostgreSQL's array grammar reads back as exactly those elements, and decoding it gives back an equal slice (nil as NULL, empty as an empty array). Decoding any one-dimensional array literal PostgreSQL sends gives exactly its elements. An element that does not fit the element type (out of range, NULL, wrong syntax), a multi-dimensional array, or a literal that is cut short or unbalanced is reported as an error, never a panic or an altered element.",
 ["inputs"],"For every slice of every supported element type, including empty strings, quotes, backslashes, commas, braces, whitespace, NULL spellings and extreme numbers, and for every array literal, well formed or not.",
 "No test in the repository exercises these codecs; the input space (strings of delimiters and escapes) is unbounded.",
 ["sequel/driver/postgres/pgtype/array.go","sequel/driver/postgres/pgtype/string_array.go","sequel/driver/postgres/pgtype/byte_array.go","sequel/driver/postgres/pgtype/bool_array.go","sequel/driver/postgres/pgtype/int_array.go","sequel/driver/postgres/pgtype/uint_array.go","sequel/driver/postgres/pgtype/float_array.go"],
 [("parseArray/scanLinearArray","sequel/driver/postgres/pgtype/array.go"),("appendArrayQuotedBytes","sequel/driver/postgres/pgtype/array.go")],
 ["driver.Value returned by Value","slice after Scan"])
p("C04","JSON list columns encode to valid JSON and decode any spelling of the list",
 "Encoding any Go slice of strings, bools, integers or floats for a MySQL or SQLite list column, and the exported slice marshalling helpers, yields valid JSON whose decoding is exactly that slice (nil is NULL, empty is an empty list); a slice JSON cannot express (NaN, infinities, text that is not UTF-8) is an error from the column types. Decoding accepts every JSON spelling of the list a database may return (insignificant whitespace, any string escape, true/false) with exactly its elements. Text that is not a JSON list of elements fitting the type is reported as an error, never a panic or an altered element.",
 ["inputs"],"For every slice of every supported element type and every JSON text that denotes it, and for arbitrary byte strings.",
 "Only a few fixed slices are tested; databases normalise JSON (spaces, escapes) in ways the tests never feed back.",
 ["sequel/sqltype/string_slice.go","sequel/sqltype/bool_slice.go","sequel/sqltype/int_slice.go","sequel/sqltype/uint_slice.go","sequel/sqltype/float_slice.go",ENC+"marshaler.go"],
 [("parseArray/scanLinearArray/appendArrayQuotedBytes","sequel/sqltype/string_slice.go"),("Value/Scan of the slice types","sequel/sqltype"),("MarshalStringSlice and siblings",ENC+"marshaler.go")],
 ["driver.Value returned by Value","slice after Scan"])
p("C05","JSON, text and binary encoded columns round trip or report an error",
 "A value stored in a column through the JSON, text-marshaller or binary-marshaller adapters and scanned back (JSON and text from a string or from bytes, binary from bytes) equals the original, with nil and NULL corresponding for pointers. A failure of the type's own marshaller or unmarshaller, or content that is not exactly one encoded value, surfaces as an error from Value or Scan. The adapters never panic on any driver value.",
 ["inputs"],"For every Go value encodable by encoding/json, every type with text or binary marshallers (value, pointer, nil pointer destinations) and every driver value.",
 "Tests cover one nil scan and one base64 example; trailing garbage, nil pointers, marshaller failures and non-byte sources are not reached.",
 [ENC+"json.go",ENC+"text.go",ENC+"pointer.go","sequel/types/binary.go"],
 [("JSONValue/JSONScanner",ENC+"json.go"),("TextValue/TextScanner",ENC+"text.go"),("PtrScanner",ENC+"pointer.go"),("BinaryMarshaler/BinaryUnmarshaler","sequel/types/binary.go")],
 ["Value/Scan results"])
p("C06","Generated code compiles and its column, value and address lists correspond",
 "For every Go source the generator accepts, in every SQL dialect and configuration, the files it writes compile together with that source; a source it cannot express is refused with an error. In them the column list names every mapped field exactly once in declaration order (embedded structs expanded in place), the scan addresses point at those same fields in that order, the value list, insert column list and per-row placeholders describe exactly the non-generated, non-readonly columns in that order, and every per-field getter yields that field under its own column name.",
 ["programs","configurations"],"For every package of Go structs (field types, tags, named, pointer, slice, array, imported and embedded types at any depth, several fields per line) times dialect and configuration.",
 "The golden tests compare fixed files for one dialect; they neither compile new shapes nor relate the lists to each other.",
 [GEN,CMP,CPL,"cmd/sqlgen/codegen/expr.go","cmd/sqlgen/codegen/package.go","cmd/sqlgen/codegen/tool.go","cmd/sqlgen/codegen/dialect/postgres/column_type.go","cmd/sqlgen/codegen/dialect/mysql/column_type.go","cmd/sqlgen/codegen/dialect/sqlite/column_type.go"],
 [("Parse (field flattening and ordering)",CMP),("generateModels/buildScanner/buildValuer/buildInsertOne",GEN),("columnDataType/scanner/valuer type mapping","cmd/sqlgen/codegen/tool.go"),("import aliasing","cmd/sqlgen/codegen/package.go")],
 ["generated.go compiled into a driver program; Columns/Values/Addrs/InsertColumns/InsertPlaceholders at run time"])
p("C07","What is written through generated code is read back identical",
 "For every model and every value of its fields, in every dialect, storing it through the generated code and reading it back through the generated code yields equal values for every mapped field, whichever of the value representations the dialect's drivers return is used (text, bytes or native). A stored value that cannot be represented is reported as an error rather than stored or read back altered.",
 ["inputs","programs","configurations"],"For every supported field type (scalars, named types, pointers, slices, arrays, times, JSON, Scanner/Valuer, text-marshaller types), every value, each dialect, text and binary result protocols.",
 "The existing insert and update tests need live servers and fail here; type mapping tests are absent, so no test ever reads back what generated code wrote.",
 [GEN,"cmd/sqlgen/codegen/dialect/mysql/column_type.go","cmd/sqlgen/codegen/dialect/postgres/column_type.go","cmd/sqlgen/codegen/dialect/sqlite/column_type.go",ENC+"int.go"],
 [("valuer/scanner selection",GEN),("ColumnDataTypes","cmd/sqlgen/codegen/dialect/*/column_type.go")],
 ["rows stored in the database; models after Addrs scan"])
p("C08","Nil pointers and NULL correspond, also through pointer-embedded structs",
 "A nil pointer field, or any field reached through a nil embedded pointer, is written as NULL and reading a row never panics, whatever its NULLs and whatever the destination held. Reading NULL into a pointer field gives nil; reading NULL into a non-pointer field behind an embedded pointer gives that field's zero value; non-NULL values are stored at the right field with all the pointers on its path allocated. Getters of such fields return nil exactly when a pointer on the way is nil.",
 ["inputs","programs"],"For every combination of nil and non-nil pointers along every embedding path, in models of any embedding depth, and every pattern of NULLs in a row.",
 "Tests check a couple of all-nil and all-set models; the combinations grow exponentially with depth and column count.",
 [GEN,CPL,ENC+"pointer.go",ENC+"text.go"],
 [("buildScanner pointer allocation",GEN),("getOrValue/IsUnderlyingPtr",GEN),("GoPtrPaths",CPL),("PtrScanner/TextScanner",ENC+"pointer.go")],
 ["Values(), Addrs() and XxxValue() of generated models"])
p("C09","Primary-key operations touch exactly the addressed row",
 "Finding, locking, updating or deleting by primary key - single, auto-increment or composite, with generated or hand-written models - reads or changes exactly the row whose key equals the model's key, and no other row. Find and lock fill the model with that row, or report no-rows; update sets every non-key, non-readonly column of that row to the model's value and leaves the key and readonly columns alone; delete removes it; the reported affected count is the real one.",
 ["inputs","histories","programs"],"For every model shape (key kind, key position, number of readonly columns), dialect, table content and sequence of operations.",
 "Existing tests require a live database and use one model; key position, readonly columns and numbered placeholders interact in ways no test enumerates.",
 [DB,GEN],
 [("FindByPK/UpdateByPK/DeleteByPK/LockByPK",DB),("buildFindByPK/buildUpdateByPK/buildCompositeKeys",GEN)],
 ["table contents before and after each call (reference model)","results of the call"])
p("C10","Inserting stores exactly the given rows and fills generated columns back",
 "Inserting one model or a slice of models of any length adds exactly one row per model, each with that model's values in the right columns, leaving auto-increment and readonly columns to the database, and changes no existing row. Where the dialect returns stored rows, each model receives its own row including database-generated columns; for a single insert the generated key is written back into the model; an empty slice does nothing. The affected count equals the number of rows stored.",
 ["inputs","histories","programs"],"For every insertable model shape, batch size (0, 1, many), column values, prior table content and dialect.",
 "Existing insert tests need live servers and one model; the batch, auto-increment and readonly code paths differ per dialect and key kind.",
 [DB,GEN],
 [("InsertOne/Insert",DB),("buildInsertOne/InsertPlaceholders/InsertColumns",GEN)],
 ["table contents before and after (reference model)","models after the call"])
p("C11","Upsert inserts or updates exactly the right rows and columns",
 "Upserting models inserts those whose key is absent and, for those whose key is present, either leaves the existing row untouched (ignore mode) or overwrites exactly the non-key, non-omitted columns with the model's values (override mode); no other row changes. Presence is decided by the primary key, or by the unique columns where the key is database-generated or the caller names the columns. Columns the caller asks to omit (on PostgreSQL also those the model declares) keep their stored value. Where the dialect returns stored rows each model receives its own row, except in bulk ignore mode, which leaves the models as they were; a single upsert writes a generated key back.",
 ["inputs","histories","programs"],"For every keyed model shape, mix of present and absent keys, omitted-column set, mode, batch size and dialect.",
 "There is no test of upsert that can run without a server, and none of the composite-key, omitted-column or ignore paths.",
 [DB],
 [("UpsertOne/Upsert",DB)],
 ["table contents before and after (reference model)","models after the call"])
p("C12","Queries and statements built from operators mean what they say",
 "For any combination of the exported operators (and/or, comparisons, in, like, between, null tests and negations), ordering, limit, offset and select list, a query returns exactly the rows of the table that satisfy the predicate, in the requested order and window, and a single-row query returns the first of them or no-rows. An update or delete statement changes exactly the rows satisfying its predicate, sets exactly the listed columns, and reports that count. Degenerate inputs (no clauses, empty value lists) keep their logical meaning and never panic or produce invalid SQL.",
 ["inputs","programs"],"For every predicate tree, column type, value, order/limit/offset combination, table content and dialect.",
 "The tests render two or three fixed expressions; they never evaluate a built query against data, and the trees are unbounded.",
 [DB,OP,"sequel/clause.go"],
 [("And/Or/Equal/In/...",OP),("QueryStmt/QueryOneStmt/ExecStmt",DB),("column getters and convert","sequel/clause.go")],
 ["rows returned or changed, compared with a reference evaluation"])
p("C13","Values reach the database only as bound arguments, matching placeholders",
 "In every statement the generated code sends, the placeholders in the text and the argument list correspond one to one and in order in the dialect's own syntax, so each value is bound to the column or comparison it was given for. Model field values and operator operands never appear in the statement text: for a given shape of call the text is the same whatever the values are. Statements are well formed in the dialect.",
 ["inputs","programs"],"For every public operation, model shape, batch size and value, including values full of quotes, placeholders and comment markers, in every dialect.",
 "Tests compare a few statement strings for one dialect; numbered placeholders, readonly columns and batches multiply the cases.",
 [DB,OP,GEN],
 [("SqlStmt.Var/Vars",DB),("InsertPlaceholders/InsertOneStmt/UpdateOneByPKStmt",GEN),("dialect QuoteVar","cmd/sqlgen/codegen/dialect")],
 ["query text and arguments at the database/sql driver boundary"])
p("C14","Pagination visits every matching row once, in order",
 "Iterating a paginator forward from the start over an unchanging table yields every row satisfying the filter exactly once, in the requested order with the primary key breaking ties, in pages no larger than the limit; iterating from a cursor yields exactly the rows from that cursor onward, and iterating backward yields the rows in the reverse direction. Stopping early, an empty table and an exhausted cursor end the iteration without error.",
 ["inputs","histories","configurations"],"For every table content with duplicates and NULLs in no ordering column, page size, filter, ordering (none, one or more columns, mixed directions), start cursor, key kind and dialect.",
 "The only pagination test needs a live server and a non-empty table; ties, multi-column orders and page boundaries need systematic exploration.",
 [DB],
 [("Paginate/Pager.Next/Pager.Prev",DB)],
 ["concatenation of the pages yielded, compared with a sorted reference"])
p("C15","Concurrent use is race free and statements never mix",
 "Any number of goroutines may use the generated helpers, operators, paginators and encoders at the same time on their own models: there is no data race, and every statement sent carries exactly the text and arguments of the call that built it. A statement obtained from the statement pool is always empty, and one released is never still referenced by a query in flight.",
 ["schedules"],"For every interleaving of concurrent calls sharing the statement and string-builder pools.",
 "The test-suite is sequential and never runs with the race detector over the pools.",
 [DB,"sequel/strpool/pool.go",ENC+"marshaler.go"],
 [("AcquireStmt/ReleaseStmt/Reset",DB),("strpool.AcquireString/ReleaseString","sequel/strpool/pool.go")],
 ["race detector reports; per-goroutine tagged statements at the driver boundary"],
 [("pool","free statement and string builders",DB)])
p("C16","Database failures surface as errors and release every resource",
 "If the database fails at any step of a helper (preparing, executing, opening, fetching any row, scanning any column, finishing the result, reading the generated key), the helper returns an error and never reports success with partial or unmodified data. On success and on failure, and when an iteration is stopped early or its context is cancelled, no result set, statement or connection remains in use and nothing panics.",
 ["fault_sequences","inputs"],"For every helper, dialect and result size, and every single failure point in its interaction with the driver.",
 "No test injects a driver failure; failures in the middle of a result set are invisible to a healthy database.",
 [DB],
 [("rows loops in QueryStmt/Insert/Upsert/Pager",DB),("InsertOne LastInsertId handling",DB)],
 ["helper return values; open rows/connections at the driver after each call"])
p("C17","Generation is deterministic, idempotent and confined to selected sources",
 "Running the generator twice on unchanged sources yields byte-identical files, whatever the working state left by earlier runs. Only the structs in files selected by the source patterns are generated, only into the configured generated files of those packages and the configured database files; every other file keeps its content. If generation fails, the files that were there before, including earlier generated ones, are left as they were.",
 ["configurations","programs","histories"],"For every source tree, source pattern (file, folder, wildcard, recursive), configuration and previous generator run, including failing ones.",
 "The golden test regenerates known folders once; repeated runs, pattern selection, and failing runs over existing output are not observed.",
 ["cmd/sqlgen/codegen/codegen.go","cmd/sqlgen/codegen/path_matcher.go",GEN,"cmd/sqlgen/codegen/init.go","cmd/sqlgen/internal/fileutil/fileutil.go"],
 [("Generate/parseGoPackage source resolution","cmd/sqlgen/codegen/codegen.go"),("matchers","cmd/sqlgen/codegen/path_matcher.go"),("struct sorting",CMP)],
 ["file tree snapshots (path, hash) before and after each run"])
p("C18","Readonly, ignored and hand-written parts are respected",
 "Columns tagged readonly are read but never written by any generated insert or update; a struct annotated readonly gets no write methods and one annotated ignore gets no code at all, regardless of what it embeds. Unexported structs and fields, fields tagged '-', and type aliases produce nothing. A method the user wrote on the model (table or database name, columns, values, addresses, SQL columns) is kept and not generated again; the generated statements use the names, values, addresses and select columns these methods give.",
 ["programs"],"For every struct with any mix of annotations, tags and hand-written methods, in every dialect.",
 "A few golden files cover single features; combinations (annotation plus embedding, own TableName plus each statement) are not covered.",
 [CMP,CPL,GEN],
 [("annotation parsing and tag options",CMP),("Implements/PtrImplements gates",GEN),("InsertColumns/ColumnsWithoutPK",CPL)],
 ["method sets of compiled models; statements they produce"])
p("C19","Names follow the convention, tags and quoting configured",
 "Every table and column is named by the explicit tag name when given and otherwise by the configured naming convention applied to the Go name, and the same name appears in every list and statement generated for it. Where a convention does not determine the spelling (letters beyond ASCII, a word right after an acronym in camelCase or PascalCase, doubled or outer underscores) the name keeps the letters of the Go name and is the same everywhere. With identifier quoting on, every identifier is quoted in the dialect's style so that the quoted form denotes exactly that name, also for reserved words. Name conflicts and invalid names are rejected with an error.",
 ["inputs","configurations","programs"],"For every Go identifier, tag value, naming convention, tag key, dialect and quoting setting.",
 "Five sample strings are tested; acronyms, digits, underscores and their consistency across the statements are not.",
 ["cmd/sqlgen/internal/strfmt/strfmt.go",CMP,GEN,"cmd/sqlgen/codegen/config.go","cmd/sqlgen/codegen/dialect/mysql/mysql.go","cmd/sqlgen/codegen/dialect/postgres/postgres.go","cmd/sqlgen/codegen/dialect/sqlite/sqlite.go"],
 [("ToSnakeCase/ToCamelCase/ToPascalCase","cmd/sqlgen/internal/strfmt/strfmt.go"),("QuoteIdentifier","cmd/sqlgen/codegen/dialect"),("RenameFunc","cmd/sqlgen/codegen/config.go")],
 ["names returned by generated models and found in generated statements"])
p("C20","Configuration layers predictably: explicit over file over default",
 "Each setting takes the explicitly given value if there is one, else the value in the configuration file found in the working directory or named on the command line, else the documented default, independently of every other setting. A boolean other than strict counts as given when it is true; one data_types entry is one setting; the operator's directory and package default to those of the database code. Loading or merging never alters the configuration passed in, and a configuration written out by init is read back as the same configuration. The effective settings are the ones generation actually uses.",
 ["configurations"],"For every subset of settings given at each layer and every value of each.",
 "The tests check two fixed configurations; the interaction of partially specified nested sections at different layers is combinatorial.",
 ["cmd/sqlgen/codegen/config.go","cmd/sqlgen/codegen/init.go","cmd/sqlgen/codegen/codegen.go"],
 [("DefaultConfig/LoadConfigFrom/Merge/initIfEmpty","cmd/sqlgen/codegen/config.go"),("Init","cmd/sqlgen/codegen/init.go")],
 ["effective Config values; generated output"])
p("C21","Debug rendering shows the statement with its own arguments",
 "Formatting a statement with the plain verbs gives its exact query text; with the detailed verbs it gives the same text with each placeholder, and nothing else, replaced by a literal of its own argument in order, quoted so that the literal denotes the argument value. Rendering never panics and never changes the statement or its arguments.",
 ["inputs"],"For every statement built through the public statement writer, any number of arguments of any bindable type and value, in every dialect.",
 "Two sample strings of the quoting helper are tested; arguments containing placeholder characters, ten or more arguments, and unusual types are not.",
 [DB,"sequel/driver/postgres/pgutil/pgutil.go"],
 [("SqlStmt.Format/strf",DB),("Quote","sequel/driver/postgres/pgutil/pgutil.go")],
 ["fmt output of statements"])
p("C22","Custom type mappings are applied everywhere the type is used",
 "When the configuration maps a Go type to its own scan and value expressions and SQL wrappers, every generated read of such a column (find, insert-returning, query, lock) selects it through the SQL read wrapper and decodes it with the scan expression, and every generated write (insert, update, key comparison) encodes it with the value expression inside the SQL write wrapper, with correct placeholder numbering. Types without a mapping are unaffected. Select lists and raw SQL the caller writes are the caller's and are sent as given.",
 ["configurations","programs"],"For every mapped type, subset of mapping expressions, and position of such columns in the model, in every dialect.",
 "One golden file shows one mapping in one dialect; positions, several wrappers, and the statements built at run time are not covered.",
 [GEN,"cmd/sqlgen/codegen/expr.go",DB],
 [("sqlScanner/sqlValuer/buildSqlColumns",GEN),("Expr.Format","cmd/sqlgen/codegen/expr.go"),("TableColumns",DB)],
 ["statements at the driver boundary; decoded models"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
