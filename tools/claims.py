CLAIM.update({
"C06":("runtime monitor: the real generator run on a matrix of sources, dialects and settings; generated packages compiled and their lists checked at run time against the model specification","Exploration: held for every generated package; trusts the Go compiler and reflection."),
"C07":("runtime monitor: generated code executed against an instrumented SQL engine (database/sql driver), stored state and read-back compared in every driver representation","Exploration; trusts the harness' SQL engine and its driver representations."),
"C08":("runtime monitor: NULL/nil patterns enumerated and randomised through generated code on an instrumented SQL engine","Exploration; all single NULLs and random NULL patterns per model; trusts the harness' SQL engine."),
})
CLAIM.update({
"C09":("runtime monitor: generated helpers executed against an instrumented SQL engine; whole-database before/after comparison per call","Exploration over models x dialects x key relations; trusts the harness' SQL engine."),
"C10":("runtime monitor: generated inserts executed against an instrumented SQL engine; conservation check over whole-database snapshots and write-back","Exploration; trusts the harness' SQL engine."),
"C11":("runtime monitor: generated upserts executed against an instrumented SQL engine and compared with a reference upsert on snapshots","Exploration; trusts the harness' SQL engine and the reference upsert."),
"C12":("runtime monitor: random predicate trees rendered by the generated operators, executed on an instrumented SQL engine and compared with three-valued reference evaluation on the models","Exploration; trusts the harness' SQL engine and the reference evaluator."),
})
CLAIM.update({
"C13":("runtime monitor: every statement received by an instrumented driver is parsed, its arguments paired with columns and compared with the values given; metamorphic text comparison across values","Exploration; trusts the harness' SQL grammar."),
"C14":("runtime monitor: paginator iterations on an instrumented SQL engine compared page by page with a reference order of the whole table","Exploration; trusts the harness' SQL engine."),
"C15":("runtime monitor: race detector plus exclusive-ownership and per-call statement log monitors over concurrent calls with injected delays","Exploration of the schedules produced; races are reported only on executed accesses."),
})
CLAIM.update({
"C16":("runtime monitor: faults injected at every step of every statement by the instrumented driver; error reported, state unchanged or fully applied, and no rows/statement/connection left open","Exploration: every single fault point of the sampled calls; trusts the harness' SQL engine and resource accounting."),
"C21":("runtime monitor: formatted statements re-read by an independent SQL lexer and compared token by token with text and arguments","Exploration; the reference lexer knows the SQL generated code writes (no comments, no pg escape or dollar strings)."),
})
CLAIM.update({
"C22":("runtime monitor: generated code with data_types mappings executed against an instrumented SQL engine whose mapped columns are only reachable through their SQL functions, compared with the reference of each call","Exploration; trusts the harness' SQL engine; operators given as raw column accessors have no SQL wrapper and are out of scope."),
})
CLAIM.update({
"C17":("runtime monitor: the real command line tool run on random source trees with histories, refused sources, blocked writes and kills; file system snapshots before and after compared with an independent source matcher and a pristine run","Exploration; kills at renames, removals and writes by strace injection."),
})
CLAIM.update({
"C18":("runtime monitor: method sets of code generated for random annotated sources judged against the annotations; generated code with readonly columns and hand-written methods executed against an instrumented SQL engine which refuses writes of readonly columns","Exploration; hand-written lists name the columns in field order."),
})
CLAIM.update({
"C19":("runtime monitor: names found in generated lists, accessors, statement texts and in every statement executed on an instrumented SQL engine compared with an independent naming reference; conflicting and invalid sources run through the real command line tool","Exploration; names whose convention leaves room (letters beyond ASCII, a word right after an acronym in camelCase) are judged on letters and consistency only."),
"C20":("runtime monitor: every setting of configurations loaded, merged, written by init and read back by the real package compared with an independent layering reference; generator runs (and the init command on a pseudo terminal) under layered configurations judged by the files, names, statements and module commands they produce","Exploration; settings no released feature reads (migration) are judged as values only."),
})
