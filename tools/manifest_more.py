"""More claimed checks: id -> (technique, level note)"""
ENUM = "TLC enumerates every behaviour of a TLA+ specification with its predicted results (%s); each is replayed in the real code and compared"
MORE = {
    "C17": (ENUM % "spec/Tls.tla: SSL modes, attempts, outcomes, closing", "Exhaustive over modes, dialects and outcome sequences of the specification; parameter values are sampled. Trusted: the driver stand-ins of harness/drivers.py."),
    "C18": (ENUM % "spec/Registry.tla, spec/Availability.tla: registry operations, missing dependencies", "Exhaustive over operation sequences up to the depth of the configuration."),
}
DATA = ("TLA+ trace validation: what the real data functions send through recording driver stand-ins is interpreted (harness/dml.py) and checked step by step by TLC "
        "against an abstract database of rows, keys and lookup tables (spec/Data.tla); clause: %s")
DNOTE = "Every recorded trace is decided by the specification; table definitions, records and dialects are sampled. Trusted: harness/dml.py as a reading of the statements, spec/Data.tla."
MORE.update({
    "C11": (DATA % "inserted rows equal the records given", DNOTE),
    "C12": (DATA % "upserts update matching rows and insert the others", DNOTE),
    "C13": (DATA % "deletes remove exactly the rows named", DNOTE),
    "C14": (ENUM % "spec/Batch.tla: sources, batch sizes, faults", "Exhaustive over record counts and kinds of source up to the bounds of spec/Batch.cfg. Trusted: driver stand-ins."),
    "C15": (DATA % "enumeration values resolve to keys of the lookup table", DNOTE),
    "C16": (ENUM % "spec/Exec.tla: scripts of statements, fillers, failures", "Exhaustive over statement kinds and failure points within spec/Exec.cfg. Trusted: driver stand-ins."),
})
MORE.update({
    "C19": (ENUM % "spec/Url.tla: components of connection strings, scanner, printed form", "Exhaustive over component presence and texts up to the lengths of spec/Url.tla; abstract characters are instantiated from small classes."),
    "C20": (ENUM % "spec/Tsv.tla: classes, mappings, records, file symbols", "Exhaustive over cell contents up to two characters and field mappings of up to three columns; value types are sampled. Trusted: tsv2py's C parser is part of the code exercised."),
})
MORE.update({
    "C21": ("TLA+ trace validation: every statement the real code generates for hostile names and texts is read by TLC, character by character, in lockstep with the statement for plain names "
            "(spec/Lex.tla: lexical rules of the four dialects)", "Exhaustive over texts of up to two special characters in every position (thorough: three), longer ones sampled. Trusted: the lexical rules of spec/Lex.tla."),
})
MORE.update({
    "C23": (ENUM % "spec/Merge.tla: merges and in-place changes of schemas; idempotence, symmetry and associativity checked on the specification", "Exhaustive over histories of two schemas (three operations) and three schemas (two merges) with two objects; histories replayed are a seeded sample of those, with definitions that differ in one of 46 attributes."),
})
MORE.update({
    "C24": (ENUM % "spec/ResultSet.tla: columns, rows, requested shapes, row representations", "Exhaustive over results of up to three columns and two rows (thorough: three), all shapes and orders of fields; values are sampled. Trusted: driver stand-ins."),
})
MORE.update({
    "C25": ("TLA+ trace validation: objects the real generator makes for random classes from scripted streams of random numbers are judged field by field by TLC (spec/Sample.tla)",
            "Classes are sampled from 45 field types; every stream pattern of up to three extremes is used. Every generated object is decided by the specification."),
})

MAP = ("TLA+ trace validation: TLC forms the set of classes a random world of modules and classes refers to, executes the script of the real generator on an empty database (spec/Db.tla) "
       "and compares what exists with what every class has to become (spec/Mapping.tla); clause: %s")
MNOTE = "Worlds, options and dialects are sampled (400 worlds per dialect, thorough 5000); every script is decided by the specification. Trusted: harness/sqlparse.py as a reading of DDL, spec/Mapping.tla."
MORE.update({
    "C09": (MAP % "tables, columns, constraints, descriptions and rows are those of the classes", MNOTE),
    "C10": (MAP % "the schema consists of exactly the objects the classes refer to, in any order of classes", MNOTE),
})

SESS = ("TLA+ trace validation: the statements of real sessions are executed by the database of the specification (spec/Session.tla, spec/Db.tla), whose catalog TLC hands back to the "
        "explorers; clause: %s")
MORE.update({
    "C07": (SESS % "after every operation, failed ones included, the model of the session is the database or what it was",
            "Histories of two to eight operations with injected failures are sampled (100 per dialect, thorough 1200) over random worlds of classes; every step is decided by the specification. "
            "Trusted: harness/sqlparse.py, harness/catalogs.py (system catalogs of the four engines)."),
    "C08": (SESS % "discovery gives back the database, and synchronizing again executes nothing",
            "Worlds of classes are sampled (100 per dialect, thorough 900), with tables of other schemas in the catalog; every step is decided by the specification. "
            "Trusted: harness/sqlparse.py, harness/catalogs.py (system catalogs of the four engines)."),
})
MORE.update({
    "C22": ("TLA+ trace validation: the script that creates a schema and the script for the classes which the real code makes of that schema are executed by TLC on empty databases (spec/Db.tla), "
            "and spec/RoundTrip.tla compares the databases, and the classes with those their generated source code defines",
            "Random schemas of four dialects, formed from classes (no check constraints, lookup or join tables; user-defined types only on PostgreSQL, their classes being given). Trusted: spec/Db.tla, harness/sqlparse.py."),
})
