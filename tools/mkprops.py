"""Writes /verif/properties.jsonl (the properties are data; this file keeps them readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
F = "pysqlsync/formation/"; D = "pysqlsync/dialect/"
MUT = [F+"mutation.py", F+"object_types.py", F+"object_dict.py", D+"postgresql/mutation.py", D+"mysql/mutation.py", D+"mssql/mutation.py", D+"oracle/mutation.py", D+"postgresql/object_types.py", D+"mysql/object_types.py", D+"mssql/object_types.py", D+"oracle/object_types.py"]

prop("C01", "A migration script is executable from its first to its last statement",
 "For PostgreSQL, MySQL, Microsoft SQL Server and Oracle, every statement of a script generated to take one database schema to another is valid in the state left by the statements before it: an object is created before anything refers to it, and nothing is dropped, renamed or altered while something else still depends on it. This covers creating everything from an empty database, dropping everything, and any mix of added, removed and altered schemas, types, tables, columns and constraints.",
 ["inputs", "programs"], "every pair of source and target schema (the primary key of a common table being the same), every drop policy, four dialects",
 "Unit tests compare the text of a few one-table scripts, and the tests that execute scripts need database servers and are skipped; which statement may precede which depends on the whole pair of schemas.",
 MUT, [("catalog mutation order", F+"mutation.py: Mutator.mutate_catalog_stmt"), ("namespace mutation order", F+"mutation.py: Mutator.mutate_namespace_stmt"), ("table mutation order", F+"mutation.py: Mutator.mutate_table_stmt"), ("topological order of namespaces", F+"object_types.py: Catalog.sort")],
 [("database", "schemas, types, tables, columns, constraints and rows as left by the statements executed so far", "abstract state of spec/Db.tla")], ["text of the generated script"])

prop("C02", "Executing a migration script yields exactly the target schema",
 "Executing a generated script on a database holding the source schema leaves exactly the target schema: the same tables, columns (type, nullability, default, identity), keys, constraints, user-defined types and stored descriptions, with nothing missing, left over or changed along the way. Objects that the drop policy does not permit to drop are the only permitted difference.",
 ["inputs", "programs"], "every pair of source and target schema with the same primary key in common tables, four dialects, every drop policy",
 "The existing tests pin the wording of isolated statements; whether a script adds up to the target depends on combinations of changes which are never executed offline.",
 MUT, [("column mutation", F+"mutation.py: Mutator.mutate_column_stmt and its overrides"), ("column migration", F+"mutation.py: Mutator.migrate_column_stmt and its overrides"), ("DDL rendering", F+"object_types.py: create_stmt, data_spec, spec"), ("comments", D+"postgresql/mutation.py, "+D+"mysql/mutation.py")],
 [("database", "the schema reached after each statement", "abstract state of spec/Db.tla")], ["text of the generated script"])

prop("C03", "No difference, no statement; and only what differs is touched",
 "Comparing a schema with an equal schema produces no statement at all, whatever order its objects are listed in, and a script names only schemas, types and tables that differ between source and target (or that a changed reference forces it to touch). Once a script has been executed, generating a script again from the reached schema to the same target produces nothing.",
 ["inputs", "programs"], "every schema and every pair of schemas, four dialects",
 "Tests check a handful of equal pairs; spurious statements appear only for specific attribute combinations and orders of definition.",
 MUT, [("object comparison", F+"object_types.py: dataclass equality; "+F+"object_dict.py: ObjectDict.__eq__, difference, intersection"), ("column comparison", F+"mutation.py: mutate_column_stmt and overrides")],
 (), ["presence and targets of statements in the script"])

prop("C04", "Nothing is dropped that the drop policy forbids",
 "With dropping enumerations, structures, tables or schemas forbidden, no generated script removes, renames away or empties an object of that kind, and the remaining changes are still made; with dropping permitted, every object absent from the target is removed. The four permissions act independently of one another.",
 ["inputs", "configurations"], "every combination of the four permissions, every pair of source and target schema, four dialects",
 "Existing tests use the default policy; sixteen policies times arbitrary schema pairs are not sampled.",
 [F+"mutation.py", F+"object_types.py"], [("drop options", F+"mutation.py: MutatorOptions; Mutator.mutate_namespace_stmt; Mutator.mutate_catalog_stmt")],
 (), ["text of the generated script executed on an abstract database"])

prop("C05", "Rows and enumeration values survive a migration",
 "Executing a generated script loses no row of any table that remains and no value of any column that remains: a value of an unchanged column is unchanged, and where an enumeration or string column becomes a reference to a lookup table each row afterwards refers to the lookup entry holding its former value, NULL staying NULL. Enumeration values present before are still present afterwards.",
 ["inputs", "histories"], "every pair of source and target schema, every content of the tables, four dialects (column-to-lookup migration: PostgreSQL and MySQL)",
 "No existing offline test holds rows; data migration is exercised only against live servers.",
 MUT, [("data migration", D+"postgresql/mutation.py and "+D+"mysql/mutation.py: migrate_column_stmt, migrate_enum_stmt"), ("soft delete", F+"object_types.py: soft_drop_stmt, hard_drop_stmt")],
 [("rows", "table contents after each statement", "abstract state of spec/Db.tla")], ["text of the generated script executed on an abstract database with rows"])

prop("C06", "An impossible change is refused as a whole, before anything is executed",
 "A change that cannot be carried out (removing a value of an enumeration type, redefining a constraint under the same name, adding or removing the identity property of a column on Microsoft SQL Server) raises a formation error instead of yielding a script, wherever in the schema it occurs. After a refusal no statement has reached the database and the session still describes the old schema, so that a permitted change can still be made.",
 ["inputs", "histories"], "every pair of schemas containing at least one impossible change among arbitrary possible ones, four dialects",
 "Tests raise the errors on one-object schemas and never look at the state left behind.",
 MUT + ["pysqlsync/base.py"], [("enum value removal", F+"mutation.py: mutate_enum_stmt"), ("constraint redefinition", F+"mutation.py: mutate_table_stmt"), ("identity", D+"mssql/mutation.py"), ("session state", "pysqlsync/base.py: BaseGenerator.create, drop")],
 (), ["exception raised by generator and context calls", "statements reaching the driver", "generator state"])

prop("C07", "A session's model of the schema follows the database through every history",
 "After any sequence of create, drop, discover and synchronize operations on a session, including ones that fail when compiling or executing a script, the session's model of the schema describes the database as it then is, so that the next operation emits exactly what is needed from there. An operation that failed before changing the database leaves the model unchanged (or, where it had discovered the database, as discovered); after a script that failed halfway, the next successful discovery or synchronization makes the model follow again.",
 ["histories", "fault_sequences"], "every sequence of session operations over arbitrary entity sets, with a failure at any operation",
 "Session-level tests need a server and are skipped; failures are not injected anywhere.",
 ["pysqlsync/base.py"], [("state assignment", "pysqlsync/base.py: BaseGenerator.create, drop; BaseContext.create_objects, drop_objects; Explorer.discover, synchronize")],
 [("session model", "catalog the next script starts from", "BaseGenerator.state"), ("database", "schema held by the server", "abstract state of spec/Session.tla")], ["generator state after each call", "statements reaching the driver"])

prop("C08", "Discovery reads back what was created, and synchronizing again does nothing",
 "On PostgreSQL, MySQL, Microsoft SQL Server and Oracle, discovering a schema that was created from entity classes yields the tables, columns, keys, constraints and user-defined types that were created, in the form in which the engine reports them, and none of another schema's. Synchronizing a second time with unchanged classes therefore issues no data definition statement (except for check constraints, which are not discovered, and single-precision floats, which are double in MySQL).",
 ["inputs", "histories"], "every set of entity classes whose features the dialect stores, four dialects",
 "Discovery and synchronization tests need a server and are skipped; no offline test runs an explorer.",
 [F+"discovery.py", F+"data_types.py", D+"postgresql/discovery.py", D+"mysql/discovery.py", D+"mssql/discovery.py", D+"oracle/discovery.py", "pysqlsync/base.py"],
 [("explorers", D+"*/discovery.py"), ("type discovery", F+"data_types.py: SqlDiscovery"), ("synchronize", "pysqlsync/base.py: Explorer.synchronize")],
 (), ["queries sent by the explorer", "discovered catalog", "statements of the second synchronization"])

prop("C09", "Entity classes map to the tables their annotations describe",
 "Each field of an entity class becomes a column of the right SQL type for the dialect (unsigned integers have the type of the signed ones of their width), NOT NULL unless optional, carrying the declared default, identity, primary key, uniqueness, reference, range and description; enumerations, nested structures, lists and sets follow the selected mapping mode (PostgreSQL, MySQL, Microsoft SQL Server, Oracle; option foreign_constraints off drops references between tables). Fields that the mode cannot express, unions of entities with keys of different types, several primary keys and references to classes of unmapped modules raise an error rather than yielding a different table.",
 ["inputs", "configurations"], "every entity class over the supported field types and annotations, every mapping mode and dialect",
 "Tests sample one class per feature; combinations of type, optionality, default, annotation, mode and dialect are not covered.",
 [F+"py_to_sql.py", "pysqlsync/model/properties.py", "pysqlsync/model/data_types.py", D+"*/generator.py"], [("class conversion", F+"py_to_sql.py: DataclassConverter"), ("field properties", "pysqlsync/model/properties.py")],
 (), ["catalog produced by the generator's converter", "CREATE TABLE statements"])

prop("C10", "The schema formed from classes is closed and independent of their order",
 "The schema formed from a set of entity classes contains every table, lookup table, join table, enumeration and structure type that the classes refer to, directly or transitively, each exactly once and in the namespace its module maps to. It does not depend on the order in which classes or modules are given.",
 ["inputs", "configurations"], "every set of entity classes over several modules, every order, every namespace mapping and mode",
 "Tests use fixed modules in one order and few mappings.",
 [F+"py_to_sql.py", F+"inspection.py"], [("dependency collection", F+"inspection.py: get_referenced_types; "+F+"py_to_sql.py: dataclasses_to_catalog"), ("namespace mapping", F+"py_to_sql.py: NamespaceMapping")],
 (), ["catalog produced by the converter"])

prop("C11", "Inserted records arrive exactly once, each value in its own column",
 "Inserting records, as entity objects or as rows with explicitly named, reordered or omitted fields, delivers to the database each record exactly once and in order, every value bound to the column of its field in the form the dialect stores, identity columns being left to the database. Nothing is sent for an empty input.",
 ["inputs", "configurations"], "every table shape, field selection and order, every batch of records including optional and converted values, four dialects",
 "Tests that insert need a server and are skipped.",
 ["pysqlsync/base.py", D+"*/generator.py", D+"*/connection.py"], [("insert", "pysqlsync/base.py: insert_data, insert_rows, _generate_records; connection overrides")],
 (), ["statement and bound parameters reaching the driver"])

prop("C12", "Upsert updates the row with the same key and inserts the others",
 "Upserting records leaves the table with each record's values in the row having its primary key: such a row is updated in exactly the supplied non-key fields and keeps the others, a row is inserted when there is none, and every other row is untouched. This holds for complete and partial field selections in any order.",
 ["inputs", "histories"], "every table shape, prior content, field selection and order, and batch of records, four dialects",
 "Tests that upsert need a server and are skipped.",
 ["pysqlsync/base.py", D+"*/generator.py", D+"*/connection.py"], [("upsert", "pysqlsync/base.py: get_table_upsert_stmt, upsert_rows, upsert_data; dialect overrides")],
 [("rows", "table contents", "abstract state of spec/Data.tla")], ["statement and bound parameters reaching the driver"])

prop("C13", "Delete removes exactly the rows with the given keys",
 "Deleting by key removes every row whose primary key is among the given keys, and no other row, with key values converted to the form the dialect stores. An empty list of keys deletes nothing.",
 ["inputs", "histories"], "every table shape, prior content and list of keys, four dialects",
 "Tests that delete need a server and are skipped.",
 ["pysqlsync/base.py", D+"*/generator.py"], [("delete", "pysqlsync/base.py: get_table_delete_stmt, delete_rows, delete_data")],
 (), ["statement and bound parameters reaching the driver"])

prop("C14", "Batching passes every record on exactly once, in order",
 "Records from any synchronous or asynchronous source are consumed once and reach the database in order, none lost or repeated, in batches none of which is empty or larger than the limit, whatever the number of records relative to the batch size. Selecting and transforming fields acts on each record independently of how records fall into batches.",
 ["inputs", "schedules"], "every length of source relative to the batch size, every kind of source, every selection and transformation",
 "The batch size is 100000 and tests use a few records, so no test crosses a batch boundary.",
 ["pysqlsync/base.py"], [("sources", "pysqlsync/base.py: IterableDataSource, AsyncIterableDataSource, SelectorDataSource, TransformerDataSource, SelectorTransformerDataSource")],
 (), ["batches reaching the driver", "reads from the source"])

prop("C15", "Enumeration values resolve to the identifiers of their lookup table",
 "When a column refers to a lookup table, every string supplied for it is replaced by the identifier that the lookup table holds for that string, values not yet present being added once and existing entries keeping their identifiers. This holds for single values, lists and sets, NULL and empty collections, and across batches and repeated calls.",
 ["inputs", "histories"], "every history of inserts and upserts, every initial lookup content, every batch split",
 "Tests that use lookup tables need a server and are skipped.",
 ["pysqlsync/base.py"], [("lookup merge", "pysqlsync/base.py: BaseEnumTransformer, EnumTransformer, EnumListTransformer, get_table_merge_stmt")],
 [("lookup table", "value to identifier", "abstract state of spec/Data.tla")], ["statements, parameters and query results at the driver"])

prop("C16", "Statements run in order, stop at the first failure, and report it",
 "A blank statement is refused before reaching the database; the statements of a script reach the database in order, each complete and exactly once, and none after one that failed. A failure surfaces as a query error carrying the statement and the original cause, and an error is never swallowed.",
 ["fault_sequences", "inputs"], "every script and batch sequence with a failure at any position, four dialects",
 "No test injects a failing statement; drivers are not exercised offline.",
 ["pysqlsync/base.py", D+"*/connection.py"], [("execution", "pysqlsync/base.py: execute, execute_all, query_all"), ("statement splitting", D+"oracle/connection.py"), ("thread dispatch", "pysqlsync/util/dispatch.py")],
 (), ["calls reaching the driver", "exception raised to the caller"])

prop("C17", "The SSL mode decides encryption and verification, with no silent downgrade",
 "Connecting uses an unencrypted or encrypted channel, with or without certificate and host name verification, exactly as the chosen SSL mode prescribes (Redshift, with temporary credentials in place of the password, and Trino always encrypt and verify); a mode that requires encryption never falls back to an unencrypted or unverified attempt, and only the two opportunistic modes make a second attempt, in their stated order, after a connection failure. The driver receives the given host, port, user, password and database, and the connection is closed when the session ends, normally or by an exception.",
 ["configurations", "fault_sequences"], "every SSL mode, every parameter combination, every sequence of connection failures, each driver",
 "Connecting needs a server; no test reads which attempts are made.",
 ["pysqlsync/connection.py", D+"*/connection.py", "pysqlsync/base.py"], [("SSL context", "pysqlsync/connection.py: create_context"), ("attempts", D+"*/connection.py: open, _open"), ("lifecycle", "pysqlsync/base.py: BaseConnection.__aenter__, __aexit__")],
 [("attempts", "connection attempts made so far with their TLS settings", "abstract state of spec/Tls.tla")], ["arguments of driver connect calls"])

prop("C18", "The dialect registry is exact and engines are independent",
 "After any sequence of registrations and removals, looking up a name returns the engine last registered under it or fails if there is none, registering a taken name fails without effect, and bundled dialects are found under their own names, unavailable ones reporting the missing dependency when used. Generators created from one engine share no schema state.",
 ["histories"], "every sequence of register, unregister, look up and create operations",
 "Tests register one dialect.",
 ["pysqlsync/factory.py", "pysqlsync/base.py"], [("registry", "pysqlsync/factory.py: register_dialect, unregister_dialect, get_dialect, discover_dialects")],
 [("registry", "name to engine", "pysqlsync/factory.py: _engines")], ["results and errors of registry calls"])

prop("C19", "Connection strings parse into the parameters they encode",
 "Parsing a connection string returns the dialect, host, port, user, password, database and SSL mode encoded in it, percent-encoded reserved characters being decoded, and rejects unknown or repeated SSL modes. The printed form of connection parameters never contains the password and parses back to the same remaining parameters.",
 ["inputs"], "every combination of present and absent components, with arbitrary characters in user, password and database",
 "Tests sample a few strings.",
 ["pysqlsync/factory.py", "pysqlsync/connection.py"], [("parse", "pysqlsync/factory.py: get_parameters"), ("print", "pysqlsync/connection.py: ConnectionParameters.__str__")],
 (), ["result of parsing"])

prop("C20", "Tab-separated export and import preserve every record",
 "Entity objects written to a tab-separated file and read back give the same records in the same order, each field in the column its header names, with NULL, empty strings, tabs, line breaks, backslashes and non-ASCII text preserved. This holds under renamed, reordered and partial field mappings.",
 ["inputs"], "every entity type over the supported field types, every field mapping, every record content",
 "Tests write a few records with benign text.",
 ["pysqlsync/data/exchange.py", "pysqlsync/model/properties.py"], [("writer", "pysqlsync/data/exchange.py: TextWriter"), ("reader", "pysqlsync/data/exchange.py: TextReader, AsyncTextReader")],
 (), ["bytes written and records read"])

prop("C21", "Identifiers and text are quoted so that they denote themselves",
 "Any table, column, schema, constraint or type name, enumeration value, default text and description containing quotes, semicolons, comment markers or line breaks appears in generated SQL as a single token which the target engine reads back as the original text. No such content can end a token early or change the sequence of statements. (Oracle permits no double quote in a name; MySQL keeps the first line of a description.)",
 ["inputs"], "every text over the characters significant to SQL lexers, in every syntactic position, four dialects",
 "Tests use plain names and one quoted string.",
 ["pysqlsync/model/id_types.py", "pysqlsync/model/data_types.py", D+"postgresql/object_types.py", D+"*/object_types.py"], [("identifier quoting", "pysqlsync/model/id_types.py"), ("literal quoting", "pysqlsync/model/data_types.py: quote, constant, escape_like; "+D+"postgresql/object_types.py: sql_quoted_string")],
 (), ["token sequence of the generated SQL"])

prop("C22", "Classes generated from a schema map back to the same schema",
 "Turning the tables of a schema into entity classes and those classes back into a schema gives the same tables: columns (in any order) with their types, nullability, defaults and descriptions, primary keys, identity, uniqueness and references. A table with a column type that no class can express is refused. Source code generated for classes defines classes equal to them.",
 ["inputs"], "every schema expressible by the supported types, every namespace mapping",
 "Tests round-trip a few tables.",
 [F+"sql_to_py.py", "pysqlsync/python_types.py", F+"py_to_sql.py"], [("class generation", F+"sql_to_py.py: SqlConverter"), ("source text", "pysqlsync/python_types.py")],
 (), ["catalog after the round trip", "generated source"])

prop("C23", "Merging schemas is a union that rejects conflicts",
 "Merging two schemas gives every object of either exactly once, is rejected with a formation error exactly when both define an object of the same name differently, and copies objects so that later changes to one schema do not show in the other. Merging with itself or with an empty schema changes nothing, and the result does not depend on the order of merging.",
 ["inputs", "histories"], "every sequence of merges over arbitrary schemas",
 "Tests merge one or two fixed schemas.",
 [F+"object_types.py", F+"object_dict.py"], [("merge", F+"object_types.py: Namespace.merge, Catalog.merge")],
 (), ["catalog after each merge"])

prop("C24", "Query results are returned in full, in the requested shape",
 "A query returns one item per result row, in order, each converted to the requested scalar, tuple or class with every column in its place; a result with a different number of columns than the scalar or tuple requested, or with fewer columns than the class has fields, is an error. This does not depend on whether the driver produces tuples, lists, dictionaries or row objects.",
 ["inputs"], "every signature, row representation and result size including none",
 "Tests convert a few rows.",
 ["pysqlsync/resultset.py", D+"*/connection.py"], [("conversion", "pysqlsync/resultset.py"), ("query", D+"*/connection.py: _query_all")],
 (), ["value returned by query_one and query_all"])

prop("C25", "Generated sample data satisfies the classes it is generated for",
 "Randomly generated objects of an entity class have a value of the declared type within the declared length, range and precision in every field (a reference has a value of the type of the key, a nested structure or list its JSON form), NULL only where permitted, and distinct primary keys. Exactly the requested number of objects is produced, and a class with a field or key type for which there is no generator is an error rather than objects with a wrong value.",
 ["inputs", "schedules"], "every entity class over the supported field types, every random stream",
 "Tests generate one class once, from one random stream.",
 ["pysqlsync/data/generator.py"], [("generation", "pysqlsync/data/generator.py: random_objects and helpers")],
 (), ["objects generated"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
