From f550cb310e516fa578300245da738c82032697e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 01/71] fix: drop outdated constraints before the columns they
 depend on

---
 pysqlsync/formation/mutation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..9e77204 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -200,6 +200,13 @@ class Mutator:
         # accumulate object mutation statements
         alter_stmts: list[Optional[str]] = []
 
+        # remove outdated constraints before the columns they depend on
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        )
+
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
@@ -233,13 +240,7 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
-        # remove outdated constraints
+        # check constraints to retain
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
             if source_constraint != target_constraint:
-- 
2.43.0


From 7ad5b4d311184228b4639f5fbc689b5bd5cd9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 02/71] fix: order changes across namespaces by reference and
 drop foreign keys before the tables they refer to

---
 pysqlsync/formation/mutation.py | 130 ++++++++++++++++++++++++++------
 1 file changed, 105 insertions(+), 25 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 9e77204..8071a96 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -8,12 +8,13 @@ from ..model.data_types import (
     constant,
     quote,
 )
-from ..model.id_types import SupportsName
+from ..model.id_types import SupportsName, SupportsQualifiedId
 from .object_types import (
     Catalog,
     Column,
     ColumnFormationError,
     EnumType,
+    ForeignConstraint,
     FormationError,
     Namespace,
     StatementList,
@@ -267,6 +268,20 @@ class Mutator:
     ) -> Optional[str]:
         self.check_identity(source, target)
 
+        dropped_tables = self._get_dropped_tables(source, target)
+        statements: StatementList = StatementList()
+        statements.append(self._extend_namespace_stmt(source, target))
+        statements.append(
+            self._drop_references_stmt(source, target, set(dropped_tables))
+        )
+        statements.append(self._shrink_namespace_stmt(source, target))
+        return join_or_none(statements)
+
+    def _extend_namespace_stmt(
+        self, source: Namespace, target: Namespace
+    ) -> Optional[str]:
+        "Creates new objects and mutates existing objects in a namespace."
+
         statements: StatementList = StatementList()
 
         # identify objects to create
@@ -276,9 +291,6 @@ class Mutator:
 
         # identify objects to drop
         enum_drop = list(source.enums.difference(target.enums))
-        struct_drop = list(source.structs.difference(target.structs))
-        table_drop = list(source.tables.difference(target.tables))
-        enum_soft_deleted: list[EnumType] = []
 
         # create new objects
         statements.extend(enum.create_stmt() for enum in enum_create)
@@ -289,7 +301,6 @@ class Mutator:
                 if enum_type.name != table.name:
                     continue
                 statements.append(enum_type.soft_drop_stmt())
-                enum_soft_deleted.append(enum_type)
 
         statements.extend(table.create_stmt() for table in table_create)
         statements.extend(table.add_constraints_stmt() for table in table_create)
@@ -321,18 +332,72 @@ class Mutator:
             for source_table, target_table in table_mutate
         )
 
-        # drop old objects
+        return join_or_none(statements)
+
+    def _get_dropped_tables(
+        self, source: Namespace, target: Optional[Namespace]
+    ) -> list[SupportsQualifiedId]:
+        "Identifies tables to drop in a namespace to be mutated, or to be dropped as a whole (if there is no target)."
+
+        if target is None:
+            if not self.options.allow_drop_namespace:
+                return []
+            return [table.name for table in source.tables.values()]
+        else:
+            if not self.options.allow_drop_table:
+                return []
+            return [table.name for table in source.tables.difference(target.tables)]
+
+    def _drop_references_stmt(
+        self,
+        source: Namespace,
+        target: Optional[Namespace],
+        dropped_tables: set[SupportsQualifiedId],
+    ) -> Optional[str]:
+        "Drops foreign keys by which tables that are absent from the target refer to other tables that are to be dropped."
+
+        statements: StatementList = StatementList()
+        for table in source.tables.values():
+            if target is not None and table.name.local_id in target.tables:
+                continue
+
+            constraints = [
+                constraint
+                for constraint in table.constraints.values()
+                if isinstance(constraint, ForeignConstraint)
+                and constraint.reference.table != table.name
+                and constraint.reference.table in dropped_tables
+            ]
+            if constraints:
+                statements.append(
+                    table.alter_table_stmt(
+                        [f"DROP CONSTRAINT {c.name}" for c in constraints]
+                    )
+                )
+        return join_or_none(statements)
+
+    def _shrink_namespace_stmt(
+        self, source: Namespace, target: Namespace
+    ) -> Optional[str]:
+        "Drops old objects in a namespace."
+
+        statements: StatementList = StatementList()
+
         if self.options.allow_drop_table:
+            table_drop = list(source.tables.difference(target.tables))
             statements.extend(table.drop_stmt() for table in table_drop)
 
         if self.options.allow_drop_struct:
-            statements.extend(struct.drop_stmt() for struct in struct_drop)
+            struct_drop = list(source.structs.difference(target.structs))
+            statements.extend(struct.drop_stmt() for struct in reversed(struct_drop))
 
         if self.options.allow_drop_enum:
-            for enum_type in enum_drop:
+            for enum_type in source.enums.difference(target.enums):
+                # enumeration type has been renamed if its name is now taken by a newly created table
+                table = target.tables.get(enum_type.name.local_id)
                 statements.append(
                     enum_type.hard_drop_stmt()
-                    if enum_type in enum_soft_deleted
+                    if table is not None and table.name == enum_type.name
                     else enum_type.drop_stmt()
                 )
 
@@ -345,31 +410,46 @@ class Mutator:
         target.sort()
 
         ns_create = list(target.namespaces.difference(source.namespaces))
-        ns_drop = list(source.namespaces.difference(target.namespaces))
-        ns_mutate = list(source.namespaces.intersection(target.namespaces))
 
         # create new namespaces
         statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
 
-        # create objects in each namespace added
-        statements.extend(namespace.create_objects_stmt() for namespace in ns_create)
-
-        # add new constraints
-        statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
-
-        # mutate existing namespaces
+        # create and mutate objects such that a namespace comes after those that it references
+        for target_ns in target.namespaces.values():
+            source_ns = source.namespaces.get(target_ns.name.local_id)
+            if source_ns is None:
+                # create objects in each namespace added
+                statements.append(target_ns.create_objects_stmt())
+
+                # add new constraints
+                statements.append(target_ns.add_constraints_stmt())
+            else:
+                # mutate existing namespaces
+                self.check_identity(source_ns, target_ns)
+                statements.append(self._extend_namespace_stmt(source_ns, target_ns))
+
+        # remove old objects such that a namespace comes before those that it references
+        ns_remove = [
+            (source_ns, target.namespaces.get(source_ns.name.local_id))
+            for source_ns in reversed(list(source.namespaces.values()))
+        ]
+        dropped_tables: set[SupportsQualifiedId] = set()
+        for source_ns, opt_target_ns in ns_remove:
+            dropped_tables.update(self._get_dropped_tables(source_ns, opt_target_ns))
         statements.extend(
-            self.mutate_namespace_stmt(source_ns, target_ns)
-            for source_ns, target_ns in ns_mutate
+            self._drop_references_stmt(source_ns, opt_target_ns, dropped_tables)
+            for source_ns, opt_target_ns in ns_remove
         )
+        for source_ns, opt_target_ns in ns_remove:
+            if opt_target_ns is not None:
+                statements.append(self._shrink_namespace_stmt(source_ns, opt_target_ns))
+            elif self.options.allow_drop_namespace:
+                # drop objects in each namespace removed
+                statements.append(source_ns.drop_objects_stmt())
 
-        # remove old constraints
-        statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
         if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed
-            statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
-
             # drop old namespaces
+            ns_drop = list(source.namespaces.difference(target.namespaces))
             statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
 
         return join_or_none(statements)
-- 
2.43.0


From 65614452fe4cd8adcfafc029ebbfc993e270cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 03/71] fix: take array element types and the unnamed namespace
 into account when ordering namespaces

---
 pysqlsync/formation/object_types.py | 40 +++++++++++++++++++----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..00df356 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -6,8 +6,13 @@ from typing import Any, Iterable, Optional, overload
 from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
-from ..model.id_types import LocalId, SupportsQualifiedId
+from ..model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    constant,
+)
+from ..model.id_types import GlobalId, LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
 
@@ -38,6 +43,20 @@ def join_or_none(statements: Iterable[Optional[str]]) -> Optional[str]:
     return join(statements) or None
 
 
+def get_type_references(
+    data_types: Iterable[SqlDataType],
+) -> set[SupportsQualifiedId]:
+    "Identifies user-defined types referenced directly, or as the element type of an array."
+
+    items: set[SupportsQualifiedId] = set()
+    for data_type in data_types:
+        while isinstance(data_type, SqlArrayType):
+            data_type = data_type.element_type
+        if isinstance(data_type, SqlUserDefinedType):
+            items.add(data_type.ref)
+    return items
+
+
 class MappingError(RuntimeError):
     "Raised when a Python class cannot map to a database entity."
 
@@ -162,11 +181,7 @@ class StructType(DatabaseObject, QualifiedObject):
         self.description = description
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
-        )
+        return get_type_references(m.data_type for m in self.members.values())
 
     def create_stmt(self) -> str:
         members = ",\n".join(str(m) for m in self.members.values())
@@ -522,11 +537,7 @@ class Table(DatabaseObject, QualifiedObject):
         raise KeyError(f"foreign constraint not found for column: {column_id}")
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
-        )
+        return get_type_references(c.data_type for c in self.columns.values())
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
         items: set[SupportsQualifiedId] = set()
@@ -686,7 +697,10 @@ class Namespace(DatabaseObject):
         for t in self.tables.values():
             items.update(t.get_referenced_types())
             items.update(t.get_referenced_tables())
-        return set(LocalId(i.scope_id) for i in items if i.scope_id is not None)
+        # global identifiers (e.g. built-in types) do not belong to any namespace
+        return set(
+            LocalId(i.scope_id or "") for i in items if not isinstance(i, GlobalId)
+        )
 
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
-- 
2.43.0


From 9aadf406b382a2bd897b015d8a6dce3ef15b3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 04/71] fix: emit changes to descriptions of structure members
 as comments, not as type changes

---
 pysqlsync/dialect/postgresql/mutation.py | 19 +++++++++++++++++++
 pysqlsync/formation/mutation.py          |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..3d93bfe 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -86,6 +86,25 @@ class PostgreSQLMutator(Mutator):
         statements: StatementList = StatementList()
         statements.append(super().mutate_struct_stmt(source, target))
 
+        for target_member in target.members.values():
+            source_member = source.members.get(target_member.name.id)
+
+            source_desc = (
+                source_member.description if source_member is not None else None
+            )
+            target_desc = target_member.description
+
+            if target_desc is None:
+                if source_desc is not None:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS NULL;"
+                    )
+            else:
+                if source_desc != target_desc:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS {sql_quoted_string(target_desc)};"
+                    )
+
         if target.description is None:
             if source.description is not None:
                 statements.append(f"COMMENT ON TYPE {target.name} IS NULL;")
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 8071a96..2e5f073 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -89,7 +89,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member != target_member:
+            if source_member.data_type != target_member.data_type:
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
-- 
2.43.0


From 15159957c56d158ccaf1cdd67b4baf200a65be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 05/71] fix: keep NULL and NOT NULL, values and descriptions of
 columns that become references to a lookup table

---
 pysqlsync/dialect/mysql/mutation.py      |  2 +-
 pysqlsync/dialect/postgresql/mutation.py | 27 +++++++++++++++++++-----
 pysqlsync/formation/mutation.py          | 15 +++++++++++--
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..d087a82 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -29,7 +29,7 @@ class MySQLMutator(Mutator):
             )
         elif isinstance(source.data_type, SqlVariableCharacterType):
             statements.append(
-                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name}\n'
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name} WHERE {LocalId(deleted(source.name.id))} IS NOT NULL\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
             )
         statements.append(
diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 3d93bfe..e0188c7 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -10,7 +10,12 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlIntegerType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlIntegerType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -39,12 +44,20 @@ class PostgreSQLMutator(Mutator):
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
         ref = target_table.get_constraint(target.name)
-        return (
+        statements: list[str] = []
+        if isinstance(source.data_type, SqlVariableCharacterType):
+            source_name = LocalId(deleted(source.name.id))
+            statements.append(
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
+                'ON CONFLICT ("value") DO NOTHING;'
+            )
+        statements.append(
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
             f"FROM {ref.table} enum_table\n"
             f'WHERE data_table.{LocalId(deleted(source.name.id))}::VARCHAR = enum_table."value";'
         )
+        return "\n".join(statements)
 
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements: StatementList = StatementList()
@@ -53,9 +66,13 @@ class PostgreSQLMutator(Mutator):
         for target_column in target.columns.values():
             source_column = source.columns.get(target_column.name.id)
 
-            source_desc = (
-                source_column.description if source_column is not None else None
-            )
+            # new columns, including those that replace a migrated column, have no description
+            if source_column is None or self.is_column_migrated(
+                source_column, target_column
+            ):
+                source_desc = None
+            else:
+                source_desc = source_column.description
             target_desc = target_column.description
 
             if target_desc is None:
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 2e5f073..f1e71ad 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -1,3 +1,4 @@
+import dataclasses
 from dataclasses import dataclass
 from typing import Optional
 
@@ -168,6 +169,7 @@ class Mutator:
         common_columns = list(source.columns.intersection(target.columns))
         drop_columns = list(source.columns.difference(target.columns))
         migrated_columns: list[tuple[Column, Column]] = []
+        interim_columns: dict[str, Column] = {}
 
         # accumulate object creation statements
         create_stmts: list[str] = []
@@ -180,8 +182,13 @@ class Mutator:
                     statements.append(
                         source.alter_table_stmt([source_column.soft_drop_stmt()])
                     )
-                    create_stmts.append(target_column.create_stmt())
+                    # existing rows have no value for the new column until data has been migrated
+                    interim_column = dataclasses.replace(
+                        target_column, nullable=True, default=None
+                    )
+                    create_stmts.append(interim_column.create_stmt())
                     migrated_columns.append(pair)
+                    interim_columns[target_column.name.local_id] = interim_column
         except ColumnFormationError as e:
             raise TableFormationError(
                 "failed to migrate columns in table", target.name
@@ -225,8 +232,12 @@ class Mutator:
         # mutate existing columns as necessary
         try:
             for source_column, target_column in common_columns:
+                interim_column = interim_columns.get(target_column.name.local_id)
                 alter_stmts.append(
-                    self.mutate_column_stmt(source_column, target_column)
+                    self.mutate_column_stmt(
+                        source_column if interim_column is None else interim_column,
+                        target_column,
+                    )
                 )
         except ColumnFormationError as e:
             raise TableFormationError(
-- 
2.43.0


From 85db54cd312761ffd2ed6eb49f86ff66e20eb361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 06/71] fix: change the type of Microsoft SQL Server columns
 that have a default

---
 pysqlsync/dialect/mssql/mutation.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 5f49fe8..31eefae 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -30,25 +30,34 @@ class MSSQLMutator(Mutator):
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements = StatementList()
 
-        constraints: list[str] = []
+        drop_constraints: list[str] = []
+        add_constraints: list[str] = []
         common_columns = source.columns.intersection(target.columns)
         for source_column, target_column in common_columns:
             source_def = source_column.default
             target_def = target_column.default
 
-            if source_def == target_def:
+            # the data type of a column cannot change while a default constraint depends on the column
+            if (
+                source_def == target_def
+                and source_column.data_type == target_column.data_type
+            ):
                 continue
 
             name = typing.cast(MSSQLColumn, source_column).default_constraint_name()
             if source_def is not None:
-                constraints.append(f"DROP CONSTRAINT {name}")
+                drop_constraints.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
-                constraints.append(
+                add_constraints.append(
                     f"ADD CONSTRAINT {name} DEFAULT {target_def} FOR {source_column.name}"
                 )
 
-        if constraints:
-            statements.append(source.alter_table_stmt(constraints))
+        if drop_constraints:
+            statements.append(source.alter_table_stmt(drop_constraints))
 
         statements.append(super().mutate_table_stmt(source, target))
+
+        if add_constraints:
+            statements.append(source.alter_table_stmt(add_constraints))
+
         return join_or_none(statements)
-- 
2.43.0


From eaacf5763e9cf4afd6c18189d2125c87c918a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 07/71] fix: quote the schema name in dynamic SQL for Microsoft
 SQL Server

---
 pysqlsync/dialect/mssql/object_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..1d4c904 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -80,7 +80,8 @@ class MSSQLNamespace(Namespace):
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             # Microsoft SQL Server requires a separate batch for creating a schema
-            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC('CREATE SCHEMA {self.name}');"
+            statement = f"CREATE SCHEMA {self.name}"
+            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC({quote(statement)});"
         else:
             return None
 
-- 
2.43.0


From aa583a70b45659a3dbbea761fde7191fa0dcaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 08/71] fix: add columns in Oracle with ADD, which has no
 COLUMN keyword

---
 pysqlsync/dialect/oracle/object_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5469aff..8f7e030 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -27,6 +27,9 @@ class OracleColumn(Column):
         identity = " GENERATED BY DEFAULT AS IDENTITY" if self.identity else ""
         return f"{self.data_type}{default}{nullable}{identity}"
 
+    def create_stmt(self) -> str:
+        return f"ADD {self.column_spec}"
+
 
 class OracleTable(Table):
     def alter_table_stmt(self, statements: list[str]) -> str:
-- 
2.43.0


From 4bd715ccd1487633ba0200deae7ad3589c8e3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 09/71] fix: bring values of an enumeration into a lookup table
 that does not stem from it

---
 pysqlsync/dialect/postgresql/mutation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index e0188c7..dcb26b9 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -51,6 +51,16 @@ class PostgreSQLMutator(Mutator):
                 f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
                 'ON CONFLICT ("value") DO NOTHING;'
             )
+        elif (
+            isinstance(source.data_type, SqlUserDefinedType)
+            and source.data_type.ref.quoted_id != ref.table.quoted_id
+        ):
+            # lookup table is not the one that replaces the enumeration type
+            source_name = LocalId(deleted(source.name.id))
+            statements.append(
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name}::VARCHAR FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
+                'ON CONFLICT ("value") DO NOTHING;'
+            )
         statements.append(
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
-- 
2.43.0


From f511c9dbefe7ad5d7d9579953bcaa3b0d9dd7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 10/71] fix: quote values with special characters in Microsoft
 SQL Server connection strings

---
 pysqlsync/dialect/mssql/connection.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..d697150 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -6,6 +6,7 @@ import pyodbc
 from strong_typing.inspection import is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource, RecordType
+from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.data_types import quote
 from pysqlsync.model.id_types import LocalId, QualifiedId
@@ -20,6 +21,16 @@ T = TypeVar("T")
 LOGGER = logging.getLogger("pysqlsync.mssql")
 
 
+def quoted_value(value: str) -> str:
+    "Encloses a value in a connection string in braces if it comprises of special characters."
+
+    if value != value.strip() or any(c in value for c in ";{}"):
+        value = value.replace("}", "}}")
+        return f"{{{value}}}"
+    else:
+        return value
+
+
 class MSSQLConnection(BaseConnection):
     """
     Represents a connection to a Microsoft SQL Server.
@@ -32,7 +43,6 @@ class MSSQLConnection(BaseConnection):
     def open(self) -> BaseContext:
         LOGGER.info("connecting to %s", self.params)
         params = {
-            "DRIVER": "{ODBC Driver 18 for SQL Server}",
             "APP": "pysqlsync",
             "SERVER": (
                 f"{self.params.host},{self.params.port}"
@@ -47,7 +57,12 @@ class MSSQLConnection(BaseConnection):
         if self.params.database is not None:
             params["DATABASE"] = self.params.database
         conn_string = ";".join(
-            f"{key}={value}" for key, value in params.items() if value is not None
+            ["DRIVER={ODBC Driver 18 for SQL Server}"]
+            + [
+                f"{key}={quoted_value(value)}"
+                for key, value in params.items()
+                if value is not None
+            ]
         )
         conn = pyodbc.connect(conn_string)
         with conn.cursor() as cur:
-- 
2.43.0


From a2277a7e622c8c1db0cfcd2dec01b0ef969f3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 11/71] fix: honor the SSL mode when connecting to Microsoft
 SQL Server

---
 pysqlsync/dialect/mssql/connection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index d697150..68131ec 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -54,6 +54,16 @@ class MSSQLConnection(BaseConnection):
             "LongAsMax": "yes",
             "TrustServerCertificate": "yes",
         }
+        ssl_mode = self.params.ssl
+        if ssl_mode is ConnectionSSLMode.disable:
+            params["Encrypt"] = "no"
+        elif ssl_mode is not None:
+            params["Encrypt"] = "yes"
+        if (
+            ssl_mode is ConnectionSSLMode.verify_ca
+            or ssl_mode is ConnectionSSLMode.verify_full
+        ):
+            params["TrustServerCertificate"] = "no"
         if self.params.database is not None:
             params["DATABASE"] = self.params.database
         conn_string = ";".join(
-- 
2.43.0


From f7e53e931b26c38249d115ff654dea9744ce107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 12/71] fix: name the interim column of a migration in a way
 that type checkers accept

---
 pysqlsync/formation/mutation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index f1e71ad..8574687 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -232,12 +232,11 @@ class Mutator:
         # mutate existing columns as necessary
         try:
             for source_column, target_column in common_columns:
-                interim_column = interim_columns.get(target_column.name.local_id)
+                source_column = interim_columns.get(
+                    target_column.name.local_id, source_column
+                )
                 alter_stmts.append(
-                    self.mutate_column_stmt(
-                        source_column if interim_column is None else interim_column,
-                        target_column,
-                    )
+                    self.mutate_column_stmt(source_column, target_column)
                 )
         except ColumnFormationError as e:
             raise TableFormationError(
-- 
2.43.0


From a812583dec30b53b0fc765a0ca7228e121c93d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 13/71] fix: leave encryption to the server in SSL mode allow
 for Microsoft SQL Server

---
 pysqlsync/dialect/mssql/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 68131ec..2ff5106 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -55,7 +55,11 @@ class MSSQLConnection(BaseConnection):
             "TrustServerCertificate": "yes",
         }
         ssl_mode = self.params.ssl
-        if ssl_mode is ConnectionSSLMode.disable:
+        if (
+            ssl_mode is ConnectionSSLMode.disable
+            or ssl_mode is ConnectionSSLMode.allow
+        ):
+            # connection is still encrypted if the server requires so
             params["Encrypt"] = "no"
         elif ssl_mode is not None:
             params["Encrypt"] = "yes"
-- 
2.43.0


From a843e067c45ba6407ba570be3608bd1bc6f0131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 14/71] fix: convert values of optional, annotated, enumeration
 and JSON fields and keys when writing entity objects

---
 pysqlsync/base.py                       | 78 +++++++++++++++++++++----
 pysqlsync/dialect/mssql/generator.py    | 11 ----
 pysqlsync/dialect/mysql/generator.py    | 11 ----
 pysqlsync/dialect/oracle/generator.py   | 25 +-------
 pysqlsync/dialect/redshift/generator.py | 11 ----
 5 files changed, 70 insertions(+), 66 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..bb058b2 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -27,11 +27,21 @@ from typing import (
     overload,
 )
 
-from strong_typing.inspection import DataclassInstance, is_dataclass_type, is_type_enum
+from strong_typing.inspection import (
+    DataclassInstance,
+    is_dataclass_type,
+    is_type_enum,
+    is_type_union,
+)
 from strong_typing.name import python_type_to_str
+from strong_typing.serialization import object_to_json
 
 from .connection import ConnectionParameters
-from .formation.inspection import get_entity_types
+from .formation.inspection import (
+    dataclass_primary_key_type,
+    get_entity_types,
+    reference_to_key,
+)
 from .formation.mutation import Mutator, MutatorOptions
 from .formation.object_types import (
     Catalog,
@@ -42,8 +52,9 @@ from .formation.object_types import (
     Table,
 )
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
-from .model.data_types import SqlJsonType, SqlVariableCharacterType
+from .model.data_types import SqlArrayType, SqlJsonType, SqlVariableCharacterType
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
+from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -63,6 +74,13 @@ _JSON_ENCODER = json.JSONEncoder(
     separators=(",", ":"),
 )
 
+
+def _enum_to_value(field: Any) -> Any:
+    "Returns the value of an enumeration member, and anything else unchanged."
+
+    return field.value if isinstance(field, enum.Enum) else field
+
+
 # number of records consumed from an asynchronous iterator before a batch is dispatched to a database
 BATCH_SIZE = 100000
 
@@ -128,6 +146,22 @@ class ClassRef:
         self.entity_name = entity_name
 
 
+def get_value_type(field_type: type, cls: type[DataclassInstance]) -> type:
+    """
+    Type of the values that a field of an entity class takes, without annotations and irrespective of nullability.
+
+    :param field_type: The type of the field as declared in the class.
+    :param cls: The entity context in which forward reference types are evaluated.
+    """
+
+    key_type = reference_to_key(get_field_properties(field_type).plain_type, cls)
+    plain_type = get_field_properties(key_type).plain_type
+    origin_type = typing.get_origin(plain_type)
+    if origin_type is list or origin_type is set or origin_type is dict:
+        return origin_type
+    return typing.cast(type, plain_type)
+
+
 @dataclass
 class GeneratorOptions:
     """
@@ -491,7 +525,9 @@ class BaseGenerator(abc.ABC):
 
         return tuple(
             self.get_field_extractor(
-                table.columns[field.name], field.name, typing.cast(type, field.type)
+                table.columns[field.name],
+                field.name,
+                get_value_type(typing.cast(type, field.type), entity_type),
             )
             for field in dataclasses.fields(entity_type)
             if not (skip_identity and table.columns[field.name].identity)
@@ -502,11 +538,16 @@ class BaseGenerator(abc.ABC):
     ) -> Callable[[Any], Any]:
         "Returns a callable function object that extracts a single field of a data-class."
 
-        if is_type_enum(field_type):
-            return lambda obj: getattr(obj, field_name).value
-        else:
+        transformer = self.get_value_transformer(column, field_type)
+        if transformer is None:
             return lambda obj: getattr(obj, field_name)
 
+        def extract(obj: Any) -> Any:
+            value = getattr(obj, field_name)
+            return transformer(value) if value is not None else None
+
+        return extract
+
     def get_value_transformer(
         self, column: Column, field_type: type
     ) -> Optional[Callable[[Any], Any]]:
@@ -514,12 +555,19 @@ class BaseGenerator(abc.ABC):
 
         if isinstance(column.data_type, SqlJsonType) or (
             isinstance(column.data_type, SqlVariableCharacterType)
-            and (field_type is dict or field_type is list or field_type is set)
+            and (
+                field_type is dict
+                or field_type is list
+                or field_type is set
+                or is_dataclass_type(field_type)
+            )
         ):
-            return lambda field: _JSON_ENCODER.encode(field)
+            return lambda field: _JSON_ENCODER.encode(object_to_json(field))
 
-        if is_type_enum(field_type):
-            return lambda field: field.value
+        if isinstance(column.data_type, SqlArrayType):
+            return lambda field: [_enum_to_value(item) for item in field]
+        elif is_type_enum(field_type) or is_type_union(field_type):
+            return _enum_to_value
         else:
             return None
 
@@ -1035,6 +1083,14 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_delete_stmt(table)
+        transformer = generator.get_value_transformer(
+            self.get_table(table).get_primary_column(),
+            get_value_type(
+                typing.cast(type, dataclass_primary_key_type(table)), table
+            ),
+        )
+        if transformer is not None:
+            keys = map(transformer, keys)
         await self.execute_all(statement, ((key,) for key in keys))
 
     async def insert_rows(
diff --git a/pysqlsync/dialect/mssql/generator.py b/pysqlsync/dialect/mssql/generator.py
index bde52b6..bfac29d 100644
--- a/pysqlsync/dialect/mssql/generator.py
+++ b/pysqlsync/dialect/mssql/generator.py
@@ -71,17 +71,6 @@ class MSSQLGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return "?"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..93b74ce 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -116,17 +116,6 @@ class MySQLGenerator(BaseGenerator):
         statements.append(";")
         return "\n".join(statements)
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 9a16b89..1df9270 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -29,9 +29,6 @@ from .data_types import (
 )
 from .object_types import OracleObjectFactory
 
-MIN_DATETIME = datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)
-MIN_DATE = datetime.date.min
-
 
 class OracleGenerator(BaseGenerator):
     "Generator for Oracle."
@@ -85,24 +82,6 @@ class OracleGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return f":{index}"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-        elif field_type is datetime.time:
-            return (
-                lambda obj: datetime.datetime.combine(
-                    MIN_DATE, getattr(obj, field_name)
-                )
-                - MIN_DATETIME
-            )
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
@@ -113,7 +92,9 @@ class OracleGenerator(BaseGenerator):
             return lambda field: field.packed
         elif field_type is datetime.time:
             return (
-                lambda field: datetime.datetime.combine(datetime.date.min, field)
+                lambda field: datetime.datetime.combine(
+                    datetime.date.min, field.replace(tzinfo=None)
+                )
                 - datetime.datetime.min
             )
 
diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 3a1a2cc..4ae656f 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -63,17 +63,6 @@ class RedshiftGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return f":{index}"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
-- 
2.43.0


From 8d2ba8bcf1590753efc3f30e01d23f77bb29606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 15/71] fix: replace enumeration values with keys of their
 lookup table when writing entity objects

---
 pysqlsync/base.py                          | 87 ++++++++++++++++++----
 pysqlsync/dialect/postgresql/connection.py | 25 ++++---
 pysqlsync/dialect/redshift/connection.py   |  8 +-
 3 files changed, 88 insertions(+), 32 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index bb058b2..444c6fa 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -51,7 +51,13 @@ from .formation.object_types import (
     ObjectFactory,
     Table,
 )
-from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
+from .formation.py_to_sql import (
+    ArrayMode,
+    DataclassConverter,
+    EnumMode,
+    StructMode,
+    is_extensible_enum_type,
+)
 from .model.data_types import SqlArrayType, SqlJsonType, SqlVariableCharacterType
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
 from .model.properties import get_field_properties
@@ -877,10 +883,12 @@ class SelectorTransformerDataSource(CompositeDataSource):
             ]
 
 
-def to_data_source(records: RecordSource) -> DataSource:
+def to_data_source(records: Union[RecordSource, DataSource]) -> DataSource:
     "Converts a synchronous or asynchronous iterable of records into a data source."
 
-    if isinstance(records, Iterable):
+    if isinstance(records, DataSource):
+        return records
+    elif isinstance(records, Iterable):
         return IterableDataSource(records)
     elif isinstance(records, AsyncIterable):
         return AsyncIterableDataSource(records)
@@ -918,7 +926,9 @@ class BaseContext(abc.ABC):
 
         ...
 
-    async def execute_all(self, statement: str, records: RecordSource) -> None:
+    async def execute_all(
+        self, statement: str, records: Union[RecordSource, DataSource]
+    ) -> None:
         "Executes a SQL statement with several records of data."
 
         if not statement:
@@ -1057,8 +1067,8 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_insert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        await self.execute_all(statement, records)
+        source = self._get_data_source(table, data, skip_identity=True)
+        await self.execute_all(statement, source)
 
     async def upsert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts or updates data in the database table corresponding to the dataclass type."
@@ -1069,8 +1079,44 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_upsert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=False)
-        await self.execute_all(statement, records)
+        source = self._get_data_source(table, data, skip_identity=False)
+        await self.execute_all(statement, source)
+
+    def _get_data_source(
+        self, table: type[D], data: Iterable[D], *, skip_identity: bool
+    ) -> DataSource:
+        "Creates a source of records from entity objects, with keys of lookup tables in place of enumeration values."
+
+        generator = self.connection.generator
+        table_object = self.get_table(table)
+        source = IterableDataSource(
+            generator.get_dataclasses_as_records(
+                table, data, skip_identity=skip_identity
+            )
+        )
+
+        fields = [
+            field
+            for field in dataclasses.fields(table)
+            if not (skip_identity and table_object.columns[field.name].identity)
+        ]
+        transformers: list[RecordTransformer] = []
+        for index, field in enumerate(fields):
+            relation: Optional[Table] = None
+            field_type = get_value_type(typing.cast(type, field.type), table)
+            if is_type_enum(field_type) or is_extensible_enum_type(field_type, table):
+                relation = self._get_lookup_table(
+                    table_object, table_object.columns[field.name]
+                )
+            if relation is not None:
+                transformers.append(EnumTransformer(self, relation, generator, index))
+            else:
+                transformers.append(ScalarTransformer(None))
+
+        if any(isinstance(t, EnumTransformer) for t in transformers):
+            return TransformerDataSource(source, transformers)
+        else:
+            return source
 
     async def delete_data(
         self, table: type[DataclassInstance], keys: Iterable[Any]
@@ -1283,15 +1329,9 @@ class BaseContext(abc.ABC):
 
         transformer = generator.get_value_transformer(column, field_type)
 
-        if not table.is_relation(column):
+        relation = self._get_lookup_table(table, column)
+        if relation is None:
             return ScalarTransformer(transformer)
-        relation = generator.state.get_referenced_table(table.name, column.name)
-        if not relation.is_lookup_table():
-            return ScalarTransformer(transformer)
-
-        LOGGER.debug(
-            "found lookup table column %s in table %s", column.name, table.name
-        )
 
         if field_type is str:
             return EnumTransformer(
@@ -1310,6 +1350,21 @@ class BaseContext(abc.ABC):
         else:
             return ScalarTransformer(transformer)
 
+    def _get_lookup_table(self, table: Table, column: Column) -> Optional[Table]:
+        "Returns the lookup table that a column refers to (if any)."
+
+        if not table.is_relation(column):
+            return None
+        state = self.connection.generator.state
+        relation = state.get_referenced_table(table.name, column.name)
+        if not relation.is_lookup_table():
+            return None
+
+        LOGGER.debug(
+            "found lookup table column %s in table %s", column.name, table.name
+        )
+        return relation
+
     async def delete_rows(
         self, table: Table, key_type: type, key_values: Iterable[Any]
     ) -> None:
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..55e09ee 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -107,18 +107,19 @@ class PostgreSQLContext(BaseContext):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        result = await self.native_connection.copy_records_to_table(
-            schema_name=table_name.scope_id,
-            table_name=table_name.local_id,
-            columns=tuple(
-                field.name
-                for field in dataclasses.fields(table)
-                if not is_identity_type(field.type)
-            ),
-            records=records,
-        )
-        LOGGER.debug(result)
+        source = self._get_data_source(table, data, skip_identity=True)
+        async for batch in source.batches():
+            result = await self.native_connection.copy_records_to_table(
+                schema_name=table_name.scope_id,
+                table_name=table_name.local_id,
+                columns=tuple(
+                    field.name
+                    for field in dataclasses.fields(table)
+                    if not is_identity_type(field.type)
+                ),
+                records=batch,
+            )
+            LOGGER.debug(result)
 
     @override
     async def _insert_rows(
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..8338baf 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -102,8 +102,7 @@ class RedshiftContext(BaseContext):
                 return resultset_unwrap_tuple(signature, records)
 
     @override
-    @thread_dispatch
-    def insert_data(self, table: type[D], data: Iterable[D]) -> None:
+    async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
@@ -113,8 +112,9 @@ class RedshiftContext(BaseContext):
             for field in dataclasses.fields(table)
             if not is_identity_type(field.type)
         ]
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        self._insert_copy_stream(table_name, columns, records)
+        source = self._get_data_source(table, data, skip_identity=True)
+        async for batch in source.batches():
+            await self._insert_copy_stream_async(table_name, columns, batch)
 
     @override
     async def _insert_rows(
-- 
2.43.0


From 2a5e5f998425004a26e1a5beb1fe6061822327e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 16/71] fix: update only the columns supplied in an upsert with
 PostgreSQL and MySQL

---
 pysqlsync/dialect/mysql/generator.py      | 2 +-
 pysqlsync/dialect/postgresql/generator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 93b74ce..8f09a3a 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -107,7 +107,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..07c9325 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,7 +99,7 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         keys = ", ".join(str(key) for key in table.primary_key)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
-- 
2.43.0


From b718f4e93c9528883ad65ef9a43ceaaee5c5eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 17/71] fix: match rows by primary key in MERGE such that an
 upsert also updates unique columns

---
 pysqlsync/base.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 444c6fa..d9af5ea 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -389,7 +389,9 @@ class BaseGenerator(abc.ABC):
         statements.append(";")
         return "\n".join(statements)
 
-    def _get_merge_preamble(self, table: Table, columns: list[Column]) -> list[str]:
+    def _get_merge_preamble(
+        self, table: Table, columns: list[Column], match_columns: list[Column]
+    ) -> list[str]:
         "Builds the match condition of a SQL MERGE statement."
 
         statements: list[str] = []
@@ -401,7 +403,6 @@ class BaseGenerator(abc.ABC):
         )
         statements.append(f"USING (VALUES ({value_list})) source({column_list})")
 
-        match_columns = [column for column in columns if table.is_lookup_column(column)]
         if match_columns:
             match_condition = " OR ".join(
                 f"target.{column.name} = source.{column.name}"
@@ -421,7 +422,8 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order) if not column.identity]
-        statements = self._get_merge_preamble(table, columns)
+        match_columns = [column for column in columns if table.is_lookup_column(column)]
+        statements = self._get_merge_preamble(table, columns, match_columns)
 
         statements.append("WHEN NOT MATCHED THEN")
         column_list = ", ".join(str(column.name) for column in columns)
@@ -441,11 +443,21 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order)]
-        statements: list[str] = self._get_merge_preamble(table, columns)
+        match_columns = [
+            column
+            for column in columns
+            if table.is_primary_column(column.name) and not column.identity
+        ]
+        if not match_columns:
+            # database assigns primary key
+            match_columns = [
+                column for column in columns if table.is_lookup_column(column)
+            ]
+        statements = self._get_merge_preamble(table, columns, match_columns)
 
         insert_columns = [column for column in columns if not column.identity]
         update_columns = [
-            column for column in insert_columns if not table.is_lookup_column(column)
+            column for column in insert_columns if column not in match_columns
         ]
         if update_columns:
             statements.append("WHEN MATCHED THEN")
-- 
2.43.0


From 73c98540f1efea8b0cf301661a5287d93bf0f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 18/71] fix: accept NULL for a list of enumeration values

---
 pysqlsync/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index d9af5ea..49fbf76 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -744,7 +744,7 @@ class EnumListTransformer(BaseEnumTransformer):
         # a list of enumeration values represented as a list of strings
         values: set[Optional[str]] = set()
         for record in records:
-            values.update(record[self.index])
+            values.update(record[self.index] or ())
         values.discard(None)  # do not insert NULL into referenced table
         enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
         return self.generator.get_enum_list_transformer(enum_list_dict)
-- 
2.43.0


From 537c54dfffc5e4ae411b5b2fed38e2bf4266ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 19/71] fix: leave identity and omitted columns out of the
 statement and the records alike when inserting rows

---
 pysqlsync/base.py                          | 41 ++++++++++++++++++++--
 pysqlsync/dialect/postgresql/connection.py |  5 ++-
 pysqlsync/dialect/redshift/connection.py   |  5 ++-
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 49fbf76..1ffa29e 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1198,10 +1198,13 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        field_names = self._get_field_names(
+            table, field_types, field_names, skip_identity=True
+        )
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_typed(statement, record_generator, table, order)
 
@@ -1256,14 +1259,48 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        field_names = self._get_field_names(table, field_types, field_names)
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_typed(statement, record_generator, table, order)
 
+    def _get_field_names(
+        self,
+        table: Table,
+        field_types: tuple[type, ...],
+        field_names: Optional[tuple[str, ...]],
+        *,
+        skip_identity: bool = False,
+    ) -> tuple[str, ...]:
+        """
+        Returns the label for each record field, which is an empty string for an omitted field.
+
+        :param table: The database table descriptor.
+        :param field_types: Type of each record field. Use `types.NoneType` to omit a field.
+        :param field_names: Label for each record field, or `None` if fields are in the order of table columns.
+        :param skip_identity: True if values for identity columns are omitted.
+        """
+
+        if field_names is None:
+            field_names = tuple(name for name in table.columns.keys())
+
+        names: list[str] = []
+        for field_type, field_name in zip(field_types, field_names):
+            if field_type is type(None):
+                names.append("")
+                continue
+
+            column = table.columns.get(field_name)
+            if skip_identity and column is not None and column.identity:
+                names.append("")
+            else:
+                names.append(field_name)
+        return tuple(names)
+
     async def _generate_records(
         self,
         table: Table,
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 55e09ee..2fbafed 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -130,10 +130,13 @@ class PostgreSQLContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
+        field_names = self._get_field_names(
+            table, field_types, field_names, skip_identity=True
+        )
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         async for batch in record_generator.batches():
             result = await self.native_connection.copy_records_to_table(
                 schema_name=table.name.scope_id,
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 8338baf..1b46e76 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -125,7 +125,10 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
+        field_names = self._get_field_names(
+            table, field_types, field_names, skip_identity=True
+        )
+        order = tuple(name for name in field_names if name)
         columns = [col.name for col in table.get_columns(order)]
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
-- 
2.43.0


From 73ebbfdb2a3e54c0a85dc05cce943e46613a808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 20/71] fix: keep semicolons in string literals, quoted
 identifiers and comments when splitting a script into statements

---
 pysqlsync/dialect/oracle/connection.py   |  4 ++--
 pysqlsync/dialect/redshift/connection.py |  4 ++--
 pysqlsync/util/script.py                 | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)
 create mode 100644 pysqlsync/util/script.py

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index e2032f5..df220b8 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,5 +1,4 @@
 import logging
-import re
 import typing
 from typing import Iterable, Optional, TypeVar
 
@@ -18,6 +17,7 @@ from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 from .data_types import sql_to_oracle_type
@@ -74,7 +74,7 @@ class OracleContext(BaseContext):
                 cur.execute(statement)
             else:
                 statement = statement.rstrip("\r\n\t\v ;")
-                for s in re.split(r";$", statement, flags=re.MULTILINE):
+                for s in split_statements(statement):
                     try:
                         cur.execute(s)
                     except Exception as e:
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 1b46e76..2ca56d2 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,6 +1,5 @@
 import dataclasses
 import logging
-import re
 import typing
 from io import BytesIO
 from typing import Iterable, Optional, TypeVar
@@ -21,6 +20,7 @@ from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -72,7 +72,7 @@ class RedshiftContext(BaseContext):
             # the possibility to execute multiple statements in one go. We artificially split SQL scripts into
             # multiple statements to work around this limitation in the connector.
             statement = statement.rstrip("\r\n\t\v ;")
-            for s in re.split(r";$", statement, flags=re.MULTILINE):
+            for s in split_statements(statement):
                 try:
                     cursor.execute(s)
                 except Exception as e:
diff --git a/pysqlsync/util/script.py b/pysqlsync/util/script.py
new file mode 100644
index 0000000..0d5de39
--- /dev/null
+++ b/pysqlsync/util/script.py
@@ -0,0 +1,22 @@
+import re
+
+_TOKEN = re.compile(
+    r"""'[^']*'|"[^"]*"|--[^\n]*|/\*.*?\*/|;[ \t\r]*$""", re.DOTALL | re.MULTILINE
+)
+
+
+def split_statements(script: str) -> list[str]:
+    """
+    Splits a SQL script into statements at semicolons that terminate a line.
+
+    Semicolons in string literals, quoted identifiers and comments don't terminate a statement.
+    """
+
+    statements: list[str] = []
+    start = 0
+    for match in _TOKEN.finditer(script):
+        if match.group().startswith(";"):
+            statements.append(script[start : match.start()])
+            start = match.end()
+    statements.append(script[start:])
+    return [statement for statement in statements if statement.strip()]
-- 
2.43.0


From 5e0b0d56a33f64de05c4569fb5c35028f313307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 21/71] fix: decode percent-encoded characters in the database
 name of a connection string

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..ef4e3f3 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From b9d21d65cf6a943e0343ddcf076d4b9d9de044c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 22/71] fix: enclose IPv6 addresses in brackets when printing
 connection parameters

---
 pysqlsync/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/connection.py b/pysqlsync/connection.py
index 52a3556..6246ebe 100644
--- a/pysqlsync/connection.py
+++ b/pysqlsync/connection.py
@@ -102,6 +102,8 @@ class ConnectionParameters:
 
     def __str__(self) -> str:
         host = self.host or "localhost"
+        if ":" in host:
+            host = f"[{host}]"
         port = f":{self.port}" if self.port else ""
         username = f"{quote(self.username, safe='')}@" if self.username else ""
         database = f"/{quote(self.database, safe='')}" if self.database else ""
-- 
2.43.0


From 8aa4980b60f127409be0fbc7e9a1823e4661d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 23/71] fix: read past records of a single empty string in
 tab-separated files

---
 pysqlsync/data/exchange.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..eba2b7b 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,20 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,10 +191,9 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            rows.append(self.parser.parse_line(record))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     async def records(self) -> AsyncIterator[tuple]:
@@ -202,7 +201,6 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            yield self.parser.parse_line(record)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
-- 
2.43.0


From 0e73ce61b13dc66b6a9ac182b3c769d9a952dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 24/71] fix: permit field mappings that leave out fields when
 reading tab-separated files

---
 pysqlsync/data/exchange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index eba2b7b..57ddf0c 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -99,6 +99,7 @@ def fields_to_types(
             reference_to_key(field.type, entity_type)
         ).tsv_type
         for field in dataclass_fields(entity_type)
+        if field.name in field_mapping
     }
 
 
-- 
2.43.0


From aa609d2251f89c770d6574e4df9a8e5996618a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 25/71] fix: escape backslashes in MySQL comments and
 enumeration values

---
 pysqlsync/dialect/mysql/mutation.py     | 14 ++++++++------
 pysqlsync/dialect/mysql/object_types.py | 22 ++++++++++++++--------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index d087a82..52a601d 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -9,10 +9,10 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType, quote
+from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType
 from pysqlsync.model.id_types import LocalId
 
-from .object_types import MySQLColumn, MySQLTable
+from .object_types import MySQLColumn, MySQLTable, quote_text
 
 
 class MySQLMutator(Mutator):
@@ -22,7 +22,9 @@ class MySQLMutator(Mutator):
         statements: list[str] = []
         ref = target_table.get_constraint(target.name)
         if isinstance(source.data_type, SqlEnumType):
-            enum_values = ", ".join(f"({quote(v)})" for v in source.data_type.values)
+            enum_values = ", ".join(
+                f"({quote_text(v)})" for v in source.data_type.values
+            )
             statements.append(
                 f'INSERT INTO {ref.table} ("value") VALUES {enum_values}\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
@@ -54,14 +56,14 @@ class MySQLMutator(Mutator):
         if source_desc is None:
             if target_desc is not None:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {quote_text(target_desc)};"
                 )
         else:
             if target_desc is None:
-                statements.append(f"ALTER TABLE {target.name} COMMENT = {quote('')};")
+                statements.append(f"ALTER TABLE {target.name} COMMENT = '';")
             elif source_desc != target_desc:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {quote_text(target_desc)};"
                 )
 
         return join_or_none(statements)
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index c73b678..80b4a5e 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -12,6 +12,12 @@ from pysqlsync.model.data_types import SqlEnumType, quote
 from pysqlsync.model.id_types import LocalId
 
 
+def quote_text(s: str) -> str:
+    "Quotes a string to be embedded in an SQL statement in which a backslash is an escape character."
+
+    return quote(s.replace("\\", "\\\\"))
+
+
 class MySQLTable(Table):
     @property
     def short_description(self) -> Optional[str]:
@@ -33,7 +39,7 @@ class MySQLTable(Table):
         )
         definition = ",\n".join(defs)
         comment = (
-            f"\nCOMMENT = {quote(self.short_description)}"
+            f"\nCOMMENT = {quote_text(self.short_description)}"
             if self.short_description
             else ""
         )
@@ -48,16 +54,16 @@ class MySQLEnumTable(EnumTable, MySQLTable):
 class MySQLColumn(Column):
     @property
     def data_spec(self) -> str:
-        charset = (
-            " CHARACTER SET ascii COLLATE ascii_bin"
-            if isinstance(self.data_type, SqlEnumType)
-            else ""
-        )
+        if isinstance(self.data_type, SqlEnumType):
+            values = ", ".join(quote_text(value) for value in self.data_type.values)
+            data_type = f"ENUM ({values}) CHARACTER SET ascii COLLATE ascii_bin"
+        else:
+            data_type = str(self.data_type)
         nullable = " NOT NULL" if not self.nullable else ""
         default = f" DEFAULT {self.default}" if self.default is not None else ""
         identity = " AUTO_INCREMENT" if self.identity else ""
         description = f" COMMENT {self.comment}" if self.description is not None else ""
-        return f"{self.data_type}{charset}{nullable}{default}{identity}{description}"
+        return f"{data_type}{nullable}{default}{identity}{description}"
 
     @property
     def comment(self) -> Optional[str]:
@@ -73,7 +79,7 @@ class MySQLColumn(Column):
                     f"comment for column {self.name} too long, expected: maximum 1024; got: {len(description)}"
                 )
 
-            return quote(description)
+            return quote_text(description)
         else:
             return None
 
-- 
2.43.0


From 6f570b05e1b8c087cdffe5a45124248a2885a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 26/71] fix: quote the table name in dynamic SQL for Oracle

---
 pysqlsync/dialect/oracle/object_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 8f7e030..a4c0853 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,7 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlTimestampType, quote
 
 
 class OracleColumn(Column):
@@ -38,9 +38,10 @@ class OracleTable(Table):
         )
 
     def drop_if_exists_stmt(self) -> str:
+        statement = quote(f"DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE")
         return (
             "BEGIN\n"
-            f"    EXECUTE IMMEDIATE 'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE';\n"
+            f"    EXECUTE IMMEDIATE {statement};\n"
             "EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\n"
             "END;"
         )
-- 
2.43.0


From b7c725c7c6e02d6bd83e11c58a9f3f339f55d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 27/71] fix: compare the values of enumeration tables

---
 pysqlsync/formation/object_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 00df356..a1228fb 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -593,6 +593,7 @@ class Table(DatabaseObject, QualifiedObject):
         return [c for c in self.constraints.values() if c.is_alter_table()]
 
 
+@dataclass
 class EnumTable(Table):
     values: list[Any]
 
-- 
2.43.0


From 53b06284766e6038ac42e72660cc4f80ea49a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 28/71] fix: match columns to fields by name when querying into
 classes with Redshift

---
 pysqlsync/dialect/redshift/connection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 2ca56d2..c358160 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -18,7 +18,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
@@ -97,7 +97,10 @@ class RedshiftContext(BaseContext):
             records = cursor.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                names = [column[0] for column in cursor.description]
+                return resultset_unwrap_dict(
+                    signature, (dict(zip(names, record)) for record in records)
+                )  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From 1a5b0f259210b58b75a82f22bc71baf3a3ce0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 29/71] fix: match columns to fields by name when querying into
 classes with Oracle

---
 pysqlsync/dialect/oracle/connection.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index df220b8..649fc65 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -3,7 +3,11 @@ import typing
 from typing import Iterable, Optional, TypeVar
 
 import oracledb
-from strong_typing.inspection import DataclassInstance, is_dataclass_type
+from strong_typing.inspection import (
+    DataclassInstance,
+    dataclass_fields,
+    is_dataclass_type,
+)
 
 from pysqlsync.base import (
     BaseConnection,
@@ -15,7 +19,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
-from pysqlsync.resultset import resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
@@ -127,13 +131,20 @@ class OracleContext(BaseContext):
     def _query_all(self, signature: type[T], statement: str) -> list[T]:
         with self.native_connection.cursor() as cur:
             cur.execute(statement)
-            if is_dataclass_type(signature):
-                cur.rowfactory = lambda *args: signature(*args)
-
             records = cur.fetchall()
 
             if is_dataclass_type(signature):
-                return records
+                fields = [field.name for field in dataclass_fields(signature)]  # type: ignore
+                # unquoted identifiers are reported in upper case
+                names = {name.upper(): name for name in fields}
+                names.update({name: name for name in fields})
+                columns = [names.get(column[0], "") for column in cur.description]
+                if sorted(columns) == sorted(fields):
+                    return resultset_unwrap_dict(
+                        signature, (dict(zip(columns, record)) for record in records)
+                    )  # type: ignore
+                else:
+                    return [signature(*record) for record in records]
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From 683297c201c79431193fd2ca71f7f2a2e50c59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 30/71] fix: map fixed-width integer and float types by value,
 not by identity of the annotation

---
 pysqlsync/formation/py_to_sql.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..f12d747 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -365,46 +365,47 @@ class DataclassConverter:
         if substitute is not None:
             return substitute
 
+        # annotated types are compared by value because identity is not preserved when types are re-constructed
         if typ is bool:
             return SqlBooleanType()
         if typ is int:
             return SqlIntegerType(8)
         if typ is float:
             return SqlDoubleType()
-        if typ is int8:
+        if typ == int8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("int1"))
             else:
                 return SqlIntegerType(2)
-        if typ is int16:
+        if typ == int16:
             return SqlIntegerType(2)
-        if typ is int32:
+        if typ == int32:
             return SqlIntegerType(4)
-        if typ is int64:
+        if typ == int64:
             return SqlIntegerType(8)
-        if typ is uint8:
+        if typ == uint8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint1"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint16:
+        if typ == uint16:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint32:
+        if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
                 return SqlIntegerType(4)
-        if typ is uint64:
+        if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
                 return SqlIntegerType(8)
-        if typ is float32:
+        if typ == float32:
             return SqlRealType()
-        if typ is float64:
+        if typ == float64:
             return SqlDoubleType()
         if typ is str:
             return SqlVariableCharacterType()
-- 
2.43.0


From 5109d205105988ed8853a705dda46f30194342b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 31/71] fix: use varchar(max) for Microsoft SQL Server strings
 longer than 8000

---
 pysqlsync/dialect/mssql/data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index ee259e2..ebe7506 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -43,10 +43,12 @@ class MSSQLVariableCharacterType(SqlVariableCharacterType):
     def __str__(self) -> str:
         if self.encoding is MSSQLEncoding.UTF16:
             chartype = "nvarchar"
+            maximum = 4000
         else:
             chartype = "varchar"
+            maximum = 8000
 
-        if self.limit is not None and self.limit > 0 and self.limit != 2147483647:
+        if self.limit is not None and 0 < self.limit <= maximum:
             return f"{chartype}({self.limit})"
         else:
             return f"{chartype}(max)"
@@ -100,7 +102,8 @@ def sql_to_odbc_type(data_type: SqlDataType) -> tuple[int, int, int]:
     elif isinstance(data_type, SqlFixedCharacterType):
         return pyodbc.SQL_CHAR, data_type.limit or 0, 0
     elif isinstance(data_type, SqlVariableCharacterType):
-        return pyodbc.SQL_VARCHAR, data_type.limit or 0, 0
+        limit = data_type.limit or 0
+        return pyodbc.SQL_VARCHAR, limit if limit <= 8000 else 0, 0
     elif isinstance(data_type, SqlFixedBinaryType):
         return pyodbc.SQL_BINARY, data_type.storage or 0, 0
     elif isinstance(data_type, SqlVariableBinaryType):
-- 
2.43.0


From 9be5efc4a4826cf45364fcd0ca8d2176380ae380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 32/71] fix: map unsigned integers to number on Oracle

---
 pysqlsync/dialect/oracle/generator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 1df9270..da84c52 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -3,7 +3,16 @@ import ipaddress
 import uuid
 from typing import Any, Callable, Optional
 
-from strong_typing.auxiliary import int8, int16, int32, int64
+from strong_typing.auxiliary import (
+    int8,
+    int16,
+    int32,
+    int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
+)
 from strong_typing.core import JsonType
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
@@ -62,6 +71,10 @@ class OracleGenerator(BaseGenerator):
                     int16: OracleIntegerType(),
                     int32: OracleIntegerType(),
                     int64: OracleIntegerType(),
+                    uint8: OracleIntegerType(),
+                    uint16: OracleIntegerType(),
+                    uint32: OracleIntegerType(),
+                    uint64: OracleIntegerType(),
                     str: OracleVariableCharacterType(),
                     uuid.UUID: OracleVariableBinaryType(16),
                     JsonType: OracleVariableCharacterType(),
-- 
2.43.0


From 3160930e6d162e5730e5cbcc376ed29d1adeb639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 33/71] fix: no check constraint for an integer range when
 check constraints are disabled

---
 pysqlsync/formation/py_to_sql.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index f12d747..9043637 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -799,15 +799,16 @@ class DataclassConverter:
                     ),
                 )
 
-        for column in columns:
-            check_constraint = self.create_check_constraint(column)
-            if check_constraint:
-                constraints.append(
-                    CheckConstraint(
-                        LocalId(self.create_check_name(cls, column.name.id)),
-                        check_constraint,
-                    ),
-                )
+        if self.options.check_constraints:
+            for column in columns:
+                check_constraint = self.create_check_constraint(column)
+                if check_constraint:
+                    constraints.append(
+                        CheckConstraint(
+                            LocalId(self.create_check_name(cls, column.name.id)),
+                            check_constraint,
+                        ),
+                    )
 
         return self.options.factory.table_class(
             name=self.create_qualified_id(cls.__module__, cls.__name__),
-- 
2.43.0


From ab6270f9719582d044e19f160cd612215fa6d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 34/71] fix: arrays of structures follow the mapping mode of
 structures

---
 pysqlsync/formation/py_to_sql.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 9043637..7015f20 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -614,13 +614,7 @@ class DataclassConverter:
                 )
             if isinstance(item_type, type):
                 if self.options.array_mode is ArrayMode.ARRAY:
-                    return SqlArrayType(
-                        SqlUserDefinedType(
-                            self.create_qualified_id(
-                                item_type.__module__, item_type.__name__
-                            )
-                        )
-                    )
+                    return SqlArrayType(self.member_to_sql_data_type(item_type, cls))
                 elif self.options.array_mode is ArrayMode.JSON:
                     return self.member_to_sql_data_type(JsonType, cls)
                 elif self.options.array_mode is ArrayMode.RELATION:
-- 
2.43.0


From 69b5c4a6e9ec6b38267fb7dde06a110f4beac28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 35/71] fix: create types of modules that define no tables

---
 pysqlsync/formation/py_to_sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 7015f20..884591b 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1180,9 +1180,9 @@ class DataclassConverter:
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                for module_name in {**tables, **structs, **enums}
             ]
         else:
             namespaces = [
-- 
2.43.0


From 9ad343e5819c488120579744dfd4550fa8346ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 36/71] fix: create lookup tables for enumerations that occur
 in structures only

---
 pysqlsync/formation/py_to_sql.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 884591b..ead0984 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1002,6 +1002,16 @@ class DataclassConverter:
             for ref_type in get_referenced_types(entity_type):
                 referenced_types.add(ref_type)
 
+        # entities, and structures whose members have a type of their own in the database
+        composite_types = [
+            obj
+            for obj in referenced_types
+            if is_entity_type(obj)
+            or (
+                self.options.struct_mode is not StructMode.JSON and is_struct_type(obj)
+            )
+        ]
+
         # collect all enumeration types in alphabetical order
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
@@ -1045,20 +1055,20 @@ class DataclassConverter:
         # discover regular enumerations
         regular_enum_types: set[type[enum.Enum]] = set()
         if self.options.enum_mode is EnumMode.RELATION:
-            for entity in table_types:
+            for composite in composite_types:
                 # field of type E
-                for enum_field in dataclass_fields_as_required(entity, is_type_enum):
+                for enum_field in dataclass_fields_as_required(composite, is_type_enum):
                     regular_enum_types.add(enum_field.type)
 
                 # field of type list[E]
                 for enum_field in dataclass_fields_as_required(
-                    entity, is_type_enum_list
+                    composite, is_type_enum_list
                 ):
                     regular_enum_types.add(unwrap_generic_list(enum_field.type))
 
                 # field of type set[E]
                 for enum_field in dataclass_fields_as_required(
-                    entity, is_type_enum_set
+                    composite, is_type_enum_set
                 ):
                     regular_enum_types.add(unwrap_generic_set(enum_field.type))
 
@@ -1068,11 +1078,11 @@ class DataclassConverter:
 
         # discover extensible enumerations
         extensible_enum_types: set[type[enum.Enum]] = set()
-        for entity in table_types:
+        for composite in composite_types:
             for enum_field in dataclass_fields_as_required(
-                entity, lambda t: is_extensible_enum_type(t, entity)
+                composite, lambda t: is_extensible_enum_type(t, composite)
             ):
-                enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
+                enum_type = unwrap_extensible_enum_type(enum_field.type, composite)
                 extensible_enum_types.add(enum_type)
         for enum_type in sorted(list(extensible_enum_types), key=lambda e: e.__name__):
             table_defs = tables.setdefault(enum_type.__module__, [])
-- 
2.43.0


From d7673fefa698eb50e0266cf9b374fcff81280dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 37/71] fix: map every enumeration to either one type or one
 lookup table

---
 pysqlsync/formation/py_to_sql.py | 72 ++++++++++++++++----------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ead0984..ed24ba0 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1012,17 +1012,47 @@ class DataclassConverter:
             )
         ]
 
+        # discover regular enumerations
+        regular_enum_types: set[type[enum.Enum]] = set()
+        for composite in composite_types:
+            # field of type E
+            for enum_field in dataclass_fields_as_required(composite, is_type_enum):
+                regular_enum_types.add(enum_field.type)
+
+            # field of type list[E]
+            for enum_field in dataclass_fields_as_required(
+                composite, is_type_enum_list
+            ):
+                regular_enum_types.add(unwrap_generic_list(enum_field.type))
+
+            # field of type set[E]
+            for enum_field in dataclass_fields_as_required(composite, is_type_enum_set):
+                regular_enum_types.add(unwrap_generic_set(enum_field.type))
+
+        # discover extensible enumerations
+        extensible_enum_types: set[type[enum.Enum]] = set()
+        for composite in composite_types:
+            for enum_field in dataclass_fields_as_required(
+                composite, lambda t: is_extensible_enum_type(t, composite)
+            ):
+                enum_type = unwrap_extensible_enum_type(enum_field.type, composite)
+                extensible_enum_types.add(enum_type)
+
         # collect all enumeration types in alphabetical order
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
             enum_types = [obj for obj in referenced_types if is_type_enum(obj)]
             enum_types.sort(key=lambda e: e.__name__)
             for enum_type in enum_types:
-                enum_values = [str(e.value) for e in enum_type]  # type: ignore
-                if len(enum_values) < 2:
-                    # enumerations with too few members expand into extensible enumeration tables
+                if enum_type in extensible_enum_types:
+                    # extensible enumerations expand into tables
+                    if enum_type in regular_enum_types:
+                        raise TypeError(
+                            f"enumeration `{enum_type.__name__}` is used both as a type and as an extensible enumeration"
+                        )
                     continue
 
+                enum_values = [str(e.value) for e in enum_type]  # type: ignore
                 enum_defs = enums.setdefault(enum_type.__module__, [])
                 enum_defs.append(
                     EnumType(
@@ -1052,39 +1082,11 @@ class DataclassConverter:
             table_defs = tables.setdefault(table_type.__module__, [])
             table_defs.append(self.dataclass_to_table(table_type))
 
-        # discover regular enumerations
-        regular_enum_types: set[type[enum.Enum]] = set()
+        # create lookup tables for enumerations
+        lookup_enum_types = set(extensible_enum_types)
         if self.options.enum_mode is EnumMode.RELATION:
-            for composite in composite_types:
-                # field of type E
-                for enum_field in dataclass_fields_as_required(composite, is_type_enum):
-                    regular_enum_types.add(enum_field.type)
-
-                # field of type list[E]
-                for enum_field in dataclass_fields_as_required(
-                    composite, is_type_enum_list
-                ):
-                    regular_enum_types.add(unwrap_generic_list(enum_field.type))
-
-                # field of type set[E]
-                for enum_field in dataclass_fields_as_required(
-                    composite, is_type_enum_set
-                ):
-                    regular_enum_types.add(unwrap_generic_set(enum_field.type))
-
-        for enum_type in sorted(list(regular_enum_types), key=lambda e: e.__name__):
-            table_defs = tables.setdefault(enum_type.__module__, [])
-            table_defs.append(self._enum_table(enum_type))
-
-        # discover extensible enumerations
-        extensible_enum_types: set[type[enum.Enum]] = set()
-        for composite in composite_types:
-            for enum_field in dataclass_fields_as_required(
-                composite, lambda t: is_extensible_enum_type(t, composite)
-            ):
-                enum_type = unwrap_extensible_enum_type(enum_field.type, composite)
-                extensible_enum_types.add(enum_type)
-        for enum_type in sorted(list(extensible_enum_types), key=lambda e: e.__name__):
+            lookup_enum_types.update(regular_enum_types)
+        for enum_type in sorted(list(lookup_enum_types), key=lambda e: e.__name__):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
-- 
2.43.0


From 0909a78a9a070d7709bc92daec22225c572b488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 38/71] fix: write default values of Boolean columns as bit
 literals for Microsoft SQL Server

---
 pysqlsync/dialect/mssql/mutation.py     |  3 ++-
 pysqlsync/dialect/mssql/object_types.py | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 31eefae..5402ac5 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -48,8 +48,9 @@ class MSSQLMutator(Mutator):
             if source_def is not None:
                 drop_constraints.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
+                target_expr = typing.cast(MSSQLColumn, target_column).default_expr
                 add_constraints.append(
-                    f"ADD CONSTRAINT {name} DEFAULT {target_def} FOR {source_column.name}"
+                    f"ADD CONSTRAINT {name} DEFAULT {target_expr} FOR {source_column.name}"
                 )
 
         if drop_constraints:
diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 1d4c904..2170a05 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -12,6 +12,8 @@ from pysqlsync.model.data_types import quote
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
+from .data_types import MSSQLBooleanType
+
 
 class MSSQLColumn(Column):
     def default_constraint_name(self) -> LocalId:
@@ -19,12 +21,23 @@ class MSSQLColumn(Column):
 
         return LocalId(f"df_{self.name.local_id}")
 
+    @property
+    def default_expr(self) -> str:
+        if self.default is None:
+            raise ValueError("default value is NULL")
+
+        # Transact-SQL has no Boolean literals
+        if isinstance(self.data_type, MSSQLBooleanType):
+            return {"TRUE": "1", "FALSE": "0"}.get(self.default, self.default)
+
+        return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable else ""
         name = self.default_constraint_name()
         default = (
-            f" CONSTRAINT {name} DEFAULT {self.default}"
+            f" CONSTRAINT {name} DEFAULT {self.default_expr}"
             if self.default is not None
             else ""
         )
-- 
2.43.0


From 8ac5ffe9af108204ad6fccb53a5cc3ccb72ff214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 39/71] fix: use a character set that can represent the values
 of enumeration columns on MySQL

---
 pysqlsync/dialect/mysql/object_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index 80b4a5e..8b7234c 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -56,7 +56,8 @@ class MySQLColumn(Column):
     def data_spec(self) -> str:
         if isinstance(self.data_type, SqlEnumType):
             values = ", ".join(quote_text(value) for value in self.data_type.values)
-            data_type = f"ENUM ({values}) CHARACTER SET ascii COLLATE ascii_bin"
+            charset = "ascii" if values.isascii() else "utf8mb4"
+            data_type = f"ENUM ({values}) CHARACTER SET {charset} COLLATE {charset}_bin"
         else:
             data_type = str(self.data_type)
         nullable = " NOT NULL" if not self.nullable else ""
-- 
2.43.0


From 0a87fa693b35960b276e0e7c3b09be0542ea7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 40/71] fix: assign automatic default values only where there
 is one of the type of the column

---
 pysqlsync/dialect/oracle/object_types.py |  9 +++++-
 pysqlsync/formation/py_to_sql.py         | 39 ++++++++++++++++--------
 pysqlsync/model/data_types.py            |  2 ++
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index a4c0853..fed9b52 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,7 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType, quote
+from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeType, quote
 
 
 class OracleColumn(Column):
@@ -17,6 +17,13 @@ class OracleColumn(Column):
             )
             if m:
                 return f"TIMESTAMP {self.default}"
+        elif isinstance(self.data_type, SqlDateType):
+            if re.match(r"^'\d{4}-\d{2}-\d{2}'$", self.default):
+                return f"DATE {self.default}"
+        elif isinstance(self.data_type, SqlTimeType):
+            m = re.match(r"^'(?P<time>\d{2}:\d{2}:\d{2})'$", self.default)
+            if m:
+                return f"INTERVAL '0 {m.group('time')}' DAY TO SECOND"
 
         return self.default
 
diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ed24ba0..fb43220 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -664,6 +664,7 @@ class DataclassConverter:
         props = get_field_properties(field.type)
         data_type = self.member_to_sql_data_type(props.field_type, cls)
 
+        default_value: Optional[str]
         if field.default is not dataclasses.MISSING and field.default is not None:
             default_value = constant(field.default)
         elif (
@@ -697,20 +698,32 @@ class DataclassConverter:
                 plain_type = None
 
             if plain_type is not None:
-                default_expr: Any
-                if plain_type is datetime.datetime:
-                    default_expr = datetime.datetime.min
-                elif plain_type is datetime.date:
-                    default_expr = datetime.date.min
-                elif plain_type is datetime.time:
-                    default_expr = datetime.time.min
-                elif is_type_enum(plain_type):
-                    default_expr = next(member.value for member in plain_type)
-                else:
-                    default_expr = plain_type()  # type: ignore
-                default_value = constant(default_expr)
+                plain_type = unwrap_annotated_type(plain_type)
+
+            default_expr: Any
+            if plain_type is datetime.datetime:
+                default_expr = datetime.datetime.min
+            elif plain_type is datetime.date:
+                default_expr = datetime.date.min
+            elif plain_type is datetime.time:
+                default_expr = datetime.time.min
+            elif is_extensible_enum_type(props.plain_type, cls):
+                # value is a key in a lookup table
+                default_expr = None
+            elif is_type_enum(plain_type):
+                default_expr = next(member.value for member in plain_type)
+                if self.options.enum_mode is EnumMode.RELATION:
+                    # value is a key in a lookup table
+                    default_expr = None
+                elif self.options.enum_mode is not EnumMode.CHECK:
+                    # value is a label
+                    default_expr = str(default_expr)
+            elif plain_type in (bool, int, float, str, decimal.Decimal):
+                default_expr = plain_type()  # type: ignore
             else:
-                default_value = None
+                # unable to infer default value for type
+                default_expr = None
+            default_value = constant(default_expr) if default_expr is not None else None
         else:
             default_value = None
 
diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c71aef6..61c1299 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -40,6 +40,8 @@ def constant(v: Any) -> str:
         else:
             timestamp = v
         return quote(timestamp.isoformat(sep=" "))
+    elif isinstance(v, (datetime.date, datetime.time)):
+        return quote(v.isoformat())
     elif isinstance(v, tuple):
         values = ", ".join(constant(value) for value in v)
         return f"({values})"
-- 
2.43.0


From 9f2dea932d8c6c449358d4ece0159fb79c47c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 41/71] fix: recognize the primary key in every order of
 annotations

---
 pysqlsync/model/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/model/properties.py b/pysqlsync/model/properties.py
index e1e31d3..1bbb235 100644
--- a/pysqlsync/model/properties.py
+++ b/pysqlsync/model/properties.py
@@ -29,7 +29,7 @@ from .key_types import DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag
 def is_primary_key_type(field_type: TypeLike) -> bool:
     "Checks if the field type is marked as the primary key of a table."
 
-    return get_annotation(field_type, PrimaryKeyTag) is not None
+    return get_field_properties(field_type).is_primary
 
 
 def is_identity_type(field_type: TypeLike) -> bool:
-- 
2.43.0


From 0e8d9b7c37f06680438f671a9a6dad1654dd28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 42/71] fix: refuse classes with several primary keys

---
 pysqlsync/formation/py_to_sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index fb43220..15e2c69 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -83,7 +83,7 @@ from ..model.id_types import (
     QualifiedId,
     SupportsQualifiedId,
 )
-from ..model.properties import get_field_properties
+from ..model.properties import get_field_properties, is_primary_key_type
 from .inspection import (
     dataclass_primary_key_name,
     dataclass_primary_key_type,
@@ -746,6 +746,9 @@ class DataclassConverter:
         if not is_dataclass_type(cls):
             raise TypeError(f"expected: dataclass type; got: {cls}")
 
+        if sum(is_primary_key_type(field.type) for field in dataclass_fields(cls)) > 1:
+            raise TypeError(f"table {cls.__name__} has several primary keys")
+
         doc = parse_type(cls)
 
         try:
-- 
2.43.0


From e59c25e161e93745282bc6aabe847c2ad8c2c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 43/71] fix: do not alter columns whose data type is the same
 in SQL

---
 pysqlsync/dialect/mssql/mutation.py  |  6 +++---
 pysqlsync/dialect/mysql/mutation.py  |  4 ++--
 pysqlsync/dialect/oracle/mutation.py |  4 ++--
 pysqlsync/formation/mutation.py      | 13 ++++++++++---
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 5402ac5..960bb90 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -1,7 +1,7 @@
 import typing
 from typing import Optional
 
-from pysqlsync.formation.mutation import Mutator
+from pysqlsync.formation.mutation import Mutator, is_same_type
 from pysqlsync.formation.object_types import (
     Column,
     ColumnFormationError,
@@ -21,7 +21,7 @@ class MSSQLMutator(Mutator):
                 source.name,
             )
 
-        if source.data_type != target.data_type or source.nullable != target.nullable:
+        if not is_same_type(source.data_type, target.data_type) or source.nullable != target.nullable:
             nullable = " NOT NULL" if not target.nullable else ""
             return f"ALTER COLUMN {source.name} {target.data_type}{nullable}"
         else:
@@ -40,7 +40,7 @@ class MSSQLMutator(Mutator):
             # the data type of a column cannot change while a default constraint depends on the column
             if (
                 source_def == target_def
-                and source_column.data_type == target_column.data_type
+                and is_same_type(source_column.data_type, target_column.data_type)
             ):
                 continue
 
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 52a601d..732b536 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -1,7 +1,7 @@
 import typing
 from typing import Optional
 
-from pysqlsync.formation.mutation import Mutator
+from pysqlsync.formation.mutation import Mutator, is_same_type
 from pysqlsync.formation.object_types import (
     Column,
     StatementList,
@@ -75,7 +75,7 @@ class MySQLMutator(Mutator):
         target = typing.cast(MySQLColumn, target_column)
 
         if (
-            source.data_type != target.data_type
+            not is_same_type(source.data_type, target.data_type)
             or source.nullable != target.nullable
             or source.default != target.default
             or source.identity != target.identity
diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index 31a0dc1..6d06990 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -1,7 +1,7 @@
 import typing
 from typing import Optional
 
-from pysqlsync.formation.mutation import Mutator
+from pysqlsync.formation.mutation import Mutator, is_same_type
 from pysqlsync.formation.object_types import Column
 
 from .object_types import OracleColumn
@@ -15,7 +15,7 @@ class OracleMutator(Mutator):
         target = typing.cast(OracleColumn, target_column)
 
         changes: list[str] = []
-        if source.data_type != target.data_type:
+        if not is_same_type(source.data_type, target.data_type):
             changes.append(str(target.data_type))
         if source.default != target.default:
             if target.default is not None:
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 8574687..fc49211 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 from typing import Optional
 
 from ..model.data_types import (
+    SqlDataType,
     SqlEnumType,
     SqlIntegerType,
     SqlVariableCharacterType,
@@ -26,6 +27,12 @@ from .object_types import (
 )
 
 
+def is_same_type(source: SqlDataType, target: SqlDataType) -> bool:
+    "True if data types are the same in SQL, irrespective of properties not reflected in SQL."
+
+    return source == target or str(source) == str(target)
+
+
 @dataclass
 class MutatorOptions:
     """
@@ -90,7 +97,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member.data_type != target_member.data_type:
+            if not is_same_type(source_member.data_type, target_member.data_type):
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
@@ -118,7 +125,7 @@ class Mutator:
         """
 
         # no migration is needed if column data type is unchanged
-        if source == target or source.data_type == target.data_type:
+        if source == target or is_same_type(source.data_type, target.data_type):
             return False
 
         # check if target data type is a primary key type
@@ -137,7 +144,7 @@ class Mutator:
 
         statements: list[str] = []
 
-        if source.data_type != target.data_type:
+        if not is_same_type(source.data_type, target.data_type):
             statements.append(f"SET DATA TYPE {target.data_type}")
 
         if source.nullable and not target.nullable:
-- 
2.43.0


From 0296222596501b58348605765a31c84db8370b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:20 +0000
Subject: [PATCH 44/71] fix: discover numeric and timestamp types, and default
 dates and times with Oracle

---
 pysqlsync/dialect/oracle/discovery.py | 40 +++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 3a7b8a4..05ef5d8 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -7,7 +7,15 @@ from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
-from pysqlsync.model.data_types import escape_like, quote
+from pysqlsync.model.data_types import (
+    SqlDecimalType,
+    SqlDoubleType,
+    SqlFloatType,
+    SqlRealType,
+    SqlTimestampType,
+    escape_like,
+    quote,
+)
 from pysqlsync.model.id_types import (
     LocalId,
     PrefixedId,
@@ -85,6 +93,17 @@ class OracleExplorer(Explorer):
         else:
             return PrefixedId(None, name)
 
+    def to_default(self, expr: str) -> str:
+        "Converts a date or time literal into the string that it has been created from."
+
+        m = re.fullmatch(
+            r"(?:DATE|TIMESTAMP) ('[^']*')|INTERVAL '0 (\d{2}:\d{2}:\d{2})' DAY TO SECOND",
+            expr.strip(),
+        )
+        if m is None:
+            return expr
+        return m.group(1) or quote(m.group(2))
+
     async def get_table_names(self) -> list[QualifiedId]:
         raise NotImplementedError()
 
@@ -148,6 +167,19 @@ class OracleExplorer(Explorer):
                 numeric_precision=col.data_precision,
                 numeric_scale=col.data_scale,
             )
+            if isinstance(data_type, OracleIntegerType):
+                # type `decimal` has a scale of 0 but no precision
+                if col.data_precision is not None:
+                    data_type = SqlDecimalType(col.data_precision, col.data_scale)
+                elif col.data_scale is not None:
+                    data_type = SqlDecimalType()
+            elif isinstance(data_type, SqlFloatType):
+                if data_type.precision is not None and data_type.precision <= 63:
+                    data_type = SqlRealType()
+                else:
+                    data_type = SqlDoubleType()
+            elif isinstance(data_type, SqlTimestampType):
+                data_type.precision = col.data_scale
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
@@ -156,7 +188,11 @@ class OracleExplorer(Explorer):
                     data_type,
                     nullable,
                     identity=identity,
-                    default=col.data_default if not identity else None,
+                    default=(
+                        self.to_default(col.data_default)
+                        if col.data_default is not None and not identity
+                        else None
+                    ),
                     description=col.comments,
                 )
             )
-- 
2.43.0


From 37591126c673cacfb13bbaac8aef60230427bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 45/71] fix: discover references to tables in the current
 schema

---
 pysqlsync/formation/discovery.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index a4b1024..bc0bfef 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -301,10 +301,16 @@ class AnsiExplorer(Explorer):
 
         constraints = ForeignFactory()
         for con in constraint_meta:
+            scope_id: Optional[str] = con.uq_table_schema
+            if scope_id == con.fk_table_schema:
+                # tables in the same schema share the scope of the referring table
+                scope_id = table_id.scope_id
+            elif scope_id == await self.conn.current_schema():
+                scope_id = None
             constraints.add(
                 con.fk_constraint_name,
                 LocalId(con.fk_column_name),
-                QualifiedId(con.uq_table_schema, con.uq_table_name),
+                QualifiedId(scope_id, con.uq_table_name),
                 LocalId(con.uq_column_name),
             )
         return constraints.fetch()
-- 
2.43.0


From 4c96299c15c5584f2902e3ad89e68bccc9080a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 46/71] fix: discover default values and default precisions
 with Microsoft SQL Server

---
 pysqlsync/dialect/mssql/discovery.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index f52484d..4a7b26a 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -1,10 +1,16 @@
+import re
 from typing import Optional
 
 from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
 from pysqlsync.formation.object_types import Column, Namespace, Table
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import (
+    SqlDecimalType,
+    SqlDoubleType,
+    SqlTimeType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 
 from .data_types import (
@@ -24,6 +30,7 @@ class MSSQLExplorer(AnsiExplorer):
                 SqlDiscoveryOptions(
                     substitutions={
                         "bit": MSSQLBooleanType(),
+                        "float": SqlDoubleType(),
                         "datetime": MSSQLDateTimeType(),
                         "datetime2": MSSQLDateTimeType(),
                         "nvarchar": MSSQLVariableCharacterType(
@@ -37,6 +44,17 @@ class MSSQLExplorer(AnsiExplorer):
             MSSQLObjectFactory(),
         )
 
+    def to_default(self, column: Column, definition: str) -> str:
+        "Converts the definition of a default constraint into the expression that it has been created from."
+
+        m = re.fullmatch(r"\((?:\((-?[0-9.]+)\)|(.*))\)", definition, re.DOTALL)
+        if m is None:
+            return definition
+        expr: str = m.group(1) or m.group(2)
+        if isinstance(column.data_type, MSSQLBooleanType):
+            return {"1": "TRUE", "0": "FALSE"}.get(expr, expr)
+        return expr
+
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         columns = await super().get_columns(table_id)
         identity_columns = await self.conn.query_all(
@@ -61,7 +79,13 @@ class MSSQLExplorer(AnsiExplorer):
             if c.name.id in identity_columns:
                 c.identity = True
             if c.name.id in default_values:
-                c.default = default_values[c.name.id]
+                c.default = self.to_default(c, default_values[c.name.id])
+
+            # drop default precision and scale
+            if c.data_type == SqlDecimalType(18, 0):
+                c.data_type = SqlDecimalType()
+            elif c.data_type == SqlTimeType(7):
+                c.data_type = SqlTimeType()
 
         return columns
 
-- 
2.43.0


From 91bb22db1c6bcbf9e084b4b79d110c563a9ac920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 47/71] fix: unescape values of enumerations discovered in
 MySQL

---
 pysqlsync/formation/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..aae34e5 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -134,7 +134,8 @@ class SqlDiscovery:
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                value.replace("''", "'")
+                for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From ee3bfc65f8495aaa95c9f902deae197e6609590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 48/71] fix: compare default values and types of MySQL as the
 server reports them

---
 pysqlsync/dialect/mysql/data_types.py |  2 +-
 pysqlsync/dialect/mysql/discovery.py  | 51 +++++++++++++++++++++------
 pysqlsync/dialect/mysql/mutation.py   | 10 +++++-
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index 6361793..cda05b6 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -7,7 +7,7 @@ from pysqlsync.model.data_types import (
 
 class MySQLDateTimeType(SqlTimestampType):
     def __str__(self) -> str:
-        if self.precision is not None:
+        if self.precision is not None and self.precision > 0:
             precision = f"({self.precision})"
         else:
             precision = ""
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 44dca53..79136c9 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -10,7 +10,15 @@ from pysqlsync.formation.discovery import (
     AnsiExplorer,
 )
 from pysqlsync.formation.object_types import Column, ForeignConstraint, Namespace
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import (
+    SqlDataType,
+    SqlDecimalType,
+    SqlDoubleType,
+    SqlFloatType,
+    SqlIntegerType,
+    SqlRealType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId, PrefixedId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
@@ -19,7 +27,7 @@ from .data_types import (
     MySQLVariableBinaryType,
     MySQLVariableCharacterType,
 )
-from .object_types import MySQLObjectFactory
+from .object_types import MySQLObjectFactory, quote_text
 
 
 @dataclass
@@ -66,6 +74,21 @@ class MySQLExplorer(AnsiExplorer):
         else:
             return PrefixedId(None, name)
 
+    def to_default(
+        self, data_type: SqlDataType, value: Optional[str]
+    ) -> Optional[str]:
+        "Converts a default value into an expression. (The information schema stores values without quotes.)"
+
+        if value is None:
+            return None
+        elif isinstance(
+            data_type,
+            (SqlIntegerType, SqlFloatType, SqlRealType, SqlDoubleType, SqlDecimalType),
+        ):
+            return value
+        else:
+            return quote_text(value)
+
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         column_meta = await self.conn.query_all(
             MySQLColumnMeta,
@@ -88,19 +111,25 @@ class MySQLExplorer(AnsiExplorer):
 
         columns: list[Column] = []
         for col in column_meta:
+            data_type = self.discovery.sql_data_type_from_spec(
+                type_name=col.data_type,
+                type_def=col.column_type,
+                character_maximum_length=col.character_maximum_length,
+                numeric_precision=col.numeric_precision,
+                numeric_scale=col.numeric_scale,
+                datetime_precision=col.datetime_precision,
+            )
+
+            # drop default precision and scale
+            if data_type == SqlDecimalType(10, 0):
+                data_type = SqlDecimalType()
+
             columns.append(
                 self.factory.column_class(
                     LocalId(col.column_name),
-                    self.discovery.sql_data_type_from_spec(
-                        type_name=col.data_type,
-                        type_def=col.column_type,
-                        character_maximum_length=col.character_maximum_length,
-                        numeric_precision=col.numeric_precision,
-                        numeric_scale=col.numeric_scale,
-                        datetime_precision=col.datetime_precision,
-                    ),
+                    data_type,
                     bool(col.nullable),
-                    default=col.column_default,
+                    default=self.to_default(data_type, col.column_default),
                     identity="auto_increment" in col.extra,
                     description=col.column_comment or None,
                 )
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 732b536..bf1b304 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -15,6 +15,14 @@ from pysqlsync.model.id_types import LocalId
 from .object_types import MySQLColumn, MySQLTable, quote_text
 
 
+def get_default_value(column: Column) -> Optional[str]:
+    "Default value of a column, in which Boolean constants are the numbers that MySQL takes them for."
+
+    if column.default is None:
+        return None
+    return {"TRUE": "1", "FALSE": "0"}.get(column.default, column.default)
+
+
 class MySQLMutator(Mutator):
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
@@ -77,7 +85,7 @@ class MySQLMutator(Mutator):
         if (
             not is_same_type(source.data_type, target.data_type)
             or source.nullable != target.nullable
-            or source.default != target.default
+            or get_default_value(source) != get_default_value(target)
             or source.identity != target.identity
             or source.comment != target.comment
         ):
-- 
2.43.0


From a62c1efdb305b2203a58e3dbca6f5d1892f37f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 49/71] fix: discover default values of columns other than
 timestamps with PostgreSQL

---
 pysqlsync/dialect/postgresql/discovery.py | 36 ++++++++++++-----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..f5ba1c8 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -1,4 +1,3 @@
-import datetime
 import re
 from dataclasses import dataclass
 from itertools import groupby
@@ -29,23 +28,26 @@ def to_default_expr(expr: Optional[str]) -> Optional[str]:
     if expr is None:
         return None
 
-    m = re.match(
-        r"^'(?P<year>\d{4})-(?P<mon>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'::timestamp without time zone$",
-        expr,
-    )
+    if expr in ["true", "false"]:
+        return expr.upper()
+
+    # remove explicit type cast
+    m = re.fullmatch(r"('(?:[^']|'')*')::([^']+)", expr)
     if m:
-        timestamp = datetime.datetime(
-            int(m.group("year")),
-            int(m.group("mon")),
-            int(m.group("day")),
-            int(m.group("hour")),
-            int(m.group("min")),
-            int(m.group("sec")),
-            tzinfo=None,
-        )
-        return quote(timestamp.isoformat(sep=" "))
-    else:
-        return expr
+        literal: str = m.group(1)
+        type_name: str = m.group(2)
+        if type_name in [
+            "smallint",
+            "integer",
+            "bigint",
+            "numeric",
+            "real",
+            "double precision",
+        ]:
+            return literal[1:-1]
+        return literal
+
+    return expr
 
 
 @dataclass
-- 
2.43.0


From 0b1d59e1c4358d979c4f90e0e378ecd0ea20e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 50/71] fix: discover array members, element types, intervals
 and the current schema with PostgreSQL

---
 pysqlsync/dialect/postgresql/discovery.py | 105 ++++++++++++++++------
 1 file changed, 78 insertions(+), 27 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index f5ba1c8..f795d8a 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -1,3 +1,4 @@
+import dataclasses
 import re
 from dataclasses import dataclass
 from itertools import groupby
@@ -15,7 +16,13 @@ from pysqlsync.formation.object_types import (
     StructType,
     Table,
 )
-from pysqlsync.model.data_types import SqlArrayType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlIntervalType,
+    SqlUserDefinedType,
+    quote,
+)
 from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId, SupportsQualifiedId
 
 from .data_types import PostgreSQLJsonType
@@ -61,6 +68,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -107,6 +115,7 @@ class PostgreSQLExplorer(Explorer):
         self.discovery = SqlDiscovery(
             SqlDiscoveryOptions(
                 substitutions={
+                    "interval": SqlIntervalType(),
                     "jsonb": PostgreSQLJsonType(),
                     "inet": SqlUserDefinedType(GlobalId("inet")),
                 }
@@ -123,12 +132,48 @@ class PostgreSQLExplorer(Explorer):
         )
         return [QualifiedId(row[0], row[1]) for row in rows]  # type: ignore
 
+    @classmethod
+    def _where_schema(cls, object_id: SupportsQualifiedId) -> str:
+        if object_id.scope_id is not None:
+            return f"nsp.nspname = {quote(object_id.scope_id)}"
+        else:
+            return "nsp.nspname = CURRENT_SCHEMA()"
+
+    async def _get_scope(
+        self, object_id: SupportsQualifiedId, schema: str
+    ) -> Optional[str]:
+        "Scope of objects that an object refers to. (Objects in the current schema may have unqualified names.)"
+
+        if schema != object_id.scope_id and schema == await self.conn.current_schema():
+            return None
+        else:
+            return schema
+
+    async def _get_data_type(
+        self,
+        object_id: SupportsQualifiedId,
+        type_schema: str,
+        type_name: str,
+        type_def: str,
+        is_array: bool,
+    ) -> SqlDataType:
+        data_type = self.discovery.sql_data_type_from_spec(
+            type_name=type_name,
+            type_schema=type_schema,
+            type_def=type_def.removesuffix("[]"),
+        )
+        if isinstance(data_type, SqlUserDefinedType):
+            ref = data_type.ref
+            if isinstance(ref, QualifiedId):
+                scope_id = await self._get_scope(object_id, type_schema)
+                data_type.ref = dataclasses.replace(ref, namespace=scope_id)
+        return SqlArrayType(data_type) if is_array else data_type
+
     @classmethod
     def _where_relation(cls, relation_id: SupportsQualifiedId, kinds: list[str]) -> str:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(relation_id.local_id)}")
-        if relation_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(relation_id.scope_id)}")
+        conditions.append(cls._where_schema(relation_id))
         conditions.append(
             " OR ".join(f"(cls.relkind = {quote(kind)})" for kind in kinds)
         )
@@ -156,8 +201,7 @@ class PostgreSQLExplorer(Explorer):
     ) -> bool:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(table_id.local_id)}")
-        if table_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(table_id.scope_id)}")
+        conditions.append(self._where_schema(table_id))
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
         condition = " AND ".join(f"({c})" for c in conditions)
@@ -175,8 +219,7 @@ class PostgreSQLExplorer(Explorer):
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
-        if struct_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(struct_id.scope_id)}")
+        conditions.append(self._where_schema(struct_id))
         condition = " AND ".join(f"({c})" for c in conditions)
 
         struct_record = await self.conn.query_one(
@@ -194,9 +237,9 @@ class PostgreSQLExplorer(Explorer):
             "SELECT\n"
             "    att.attname AS member_name,\n"
             "    typ_nsp.nspname AS type_schema,\n"
-            "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -211,10 +254,12 @@ class PostgreSQLExplorer(Explorer):
 
         members: list[StructMember] = []
         for mem in member_records:
-            data_type = self.discovery.sql_data_type_from_spec(
-                type_name=mem.type_name,
-                type_schema=mem.type_schema,
-                type_def=mem.type_def,
+            data_type = await self._get_data_type(
+                struct_id,
+                mem.type_schema,
+                mem.type_name,
+                mem.type_def,
+                mem.is_array,
             )
             members.append(
                 StructMember(
@@ -267,13 +312,13 @@ class PostgreSQLExplorer(Explorer):
 
         columns: list[Column] = []
         for col in column_records:
-            data_type = self.discovery.sql_data_type_from_spec(
-                type_name=col.type_name,
-                type_schema=col.type_schema,
-                type_def=col.type_def,
+            data_type = await self._get_data_type(
+                table_id,
+                col.type_schema,
+                col.type_name,
+                col.type_def,
+                col.is_array,
             )
-            if col.is_array:
-                data_type = SqlArrayType(data_type)
             columns.append(
                 self.factory.column_class(
                     LocalId(col.column_name),
@@ -326,7 +371,10 @@ class PostgreSQLExplorer(Explorer):
                 foreign.add(
                     con.constraint_name,
                     LocalId(con.source_column),
-                    QualifiedId(con.target_namespace, con.target_table),
+                    QualifiedId(
+                        await self._get_scope(table_id, con.target_namespace),
+                        con.target_table,
+                    ),
                     LocalId(con.target_column),
                 )
 
@@ -346,9 +394,12 @@ class PostgreSQLExplorer(Explorer):
         schema = await self.conn.current_schema()
         if schema is None:
             raise RuntimeError("unable to fetch current schema")
-        return await self.get_namespace(LocalId(schema))
+        return await self._get_namespace(schema, None)
 
     async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self._get_namespace(namespace_id.id, namespace_id.id)
+
+    async def _get_namespace(self, schema: str, scope_id: Optional[str]) -> Namespace:
         enum_records = await self.conn.query_all(
             PostgreSQLEnumMeta,
             "SELECT\n"
@@ -357,7 +408,7 @@ class PostgreSQLExplorer(Explorer):
             "FROM pg_catalog.pg_type t\n"
             "    JOIN pg_catalog.pg_enum e ON t.oid = e.enumtypid\n"
             "    JOIN pg_catalog.pg_namespace n ON n.oid = t.typnamespace\n"
-            f"WHERE n.nspname = {quote(namespace_id.id)}\n"
+            f"WHERE n.nspname = {quote(schema)}\n"
             "ORDER BY enum_name, e.enumsortorder\n"
             ";",
         )
@@ -366,7 +417,7 @@ class PostgreSQLExplorer(Explorer):
         for enum_name, enum_groups in groupby(enum_records, key=lambda e: e.enum_name):
             enums.append(
                 EnumType(
-                    QualifiedId(namespace_id.id, enum_name),
+                    QualifiedId(scope_id, enum_name),
                     [e.enum_value for e in enum_groups],
                 )
             )
@@ -375,31 +426,31 @@ class PostgreSQLExplorer(Explorer):
             str,
             "SELECT cls.relname\n"
             "FROM pg_catalog.pg_class AS cls INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
-            f"WHERE nsp.nspname = {quote(namespace_id.id)} AND (cls.relkind = 'c')\n"
+            f"WHERE nsp.nspname = {quote(schema)} AND (cls.relkind = 'c')\n"
             ";",
         )
 
         structs: list[StructType] = []
         for struct_name in struct_names:
-            struct = await self.get_struct(QualifiedId(namespace_id.id, struct_name))
+            struct = await self.get_struct(QualifiedId(scope_id, struct_name))
             structs.append(struct)
 
         table_names = await self.conn.query_all(
             str,
             "SELECT cls.relname\n"
             "FROM pg_catalog.pg_class AS cls INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
-            f"WHERE nsp.nspname = {quote(namespace_id.id)} AND (cls.relkind = 'r' OR cls.relkind = 'v')\n"
+            f"WHERE nsp.nspname = {quote(schema)} AND (cls.relkind = 'r' OR cls.relkind = 'v')\n"
             ";",
         )
 
         tables: list[Table] = []
         for table_name in table_names:
-            table = await self.get_table(QualifiedId(namespace_id.id, table_name))
+            table = await self.get_table(QualifiedId(scope_id, table_name))
             tables.append(table)
 
         if enums or structs or tables:
             return self.factory.namespace_class(
-                namespace_id, enums=enums, structs=structs, tables=tables
+                LocalId(scope_id or ""), enums=enums, structs=structs, tables=tables
             )
         else:
             return self.factory.namespace_class()
-- 
2.43.0


From 35a288d2a3f0ed1215585e8802601bd4f0b4de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 51/71] fix: discover only tables of the current schema with
 Oracle

---
 pysqlsync/dialect/oracle/discovery.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 05ef5d8..bc494d5 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -34,6 +34,8 @@ from .object_types import OracleObjectFactory
 
 LOGGER = logging.getLogger("pysqlsync.oracle")
 
+CURRENT_SCHEMA = "SYS_CONTEXT('USERENV', 'CURRENT_SCHEMA')"
+
 
 @dataclass
 class OracleColumnMeta:
@@ -122,7 +124,7 @@ class OracleExplorer(Explorer):
             str,
             "SELECT tc.comments\n"
             "FROM dba_tables t JOIN dba_tab_comments tc ON t.owner = tc.owner AND t.table_name = tc.table_name\n"
-            f"WHERE t.owner != 'SYS' AND {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
+            f"WHERE t.owner = {CURRENT_SCHEMA} AND {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
             "    AND t.status = 'VALID' AND t.temporary = 'N' AND t.secondary = 'N' AND t.dropped = 'NO' AND t.read_only = 'NO'",
         )
 
@@ -142,7 +144,7 @@ class OracleExplorer(Explorer):
             "    tc.comments\n"
             "FROM dba_tab_columns t\n"
             "    JOIN dba_col_comments tc ON t.owner = tc.owner AND t.table_name = tc.table_name AND t.column_name = tc.column_name\n"
-            f"WHERE {condition}\n"
+            f"WHERE t.owner = {CURRENT_SCHEMA} AND {condition}\n"
             "ORDER BY column_id",
         )
 
@@ -209,7 +211,7 @@ class OracleExplorer(Explorer):
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
             "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
-            f"WHERE {condition}\n"
+            f"WHERE t.owner = {CURRENT_SCHEMA} AND {condition}\n"
             "ORDER BY tc.position",
         )
 
@@ -258,7 +260,7 @@ class OracleExplorer(Explorer):
         table_names = await self.conn.query_all(
             str,
             "SELECT table_name FROM dba_tables\n"
-            f"WHERE owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
+            f"WHERE owner = {CURRENT_SCHEMA} AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
             "    AND status = 'VALID' AND temporary = 'N' AND secondary = 'N' AND dropped = 'NO' AND read_only = 'NO'",
         )
 
-- 
2.43.0


From cfc862acc003d6244b00bb0b5eee5168278a01da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 52/71] fix: order discovered structs such that members come
 first

---
 pysqlsync/dialect/postgresql/discovery.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index f795d8a..3debd25 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -4,6 +4,8 @@ from dataclasses import dataclass
 from itertools import groupby
 from typing import Optional
 
+from strong_typing.topological import topological_sort
+
 from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
@@ -430,10 +432,19 @@ class PostgreSQLExplorer(Explorer):
             ";",
         )
 
-        structs: list[StructType] = []
+        structs_by_id: dict[SupportsQualifiedId, StructType] = {}
         for struct_name in struct_names:
-            struct = await self.get_struct(QualifiedId(scope_id, struct_name))
-            structs.append(struct)
+            struct_id = QualifiedId(scope_id, struct_name)
+            structs_by_id[struct_id] = await self.get_struct(struct_id)
+
+        # a struct comes after those that its members are of
+        struct_graph = {
+            struct_id: struct.get_referenced_types() & structs_by_id.keys()
+            for struct_id, struct in structs_by_id.items()
+        }
+        structs = [
+            structs_by_id[struct_id] for struct_id in topological_sort(struct_graph)
+        ]
 
         table_names = await self.conn.query_all(
             str,
-- 
2.43.0


From a5320973c1b73838b4dc472ec6cc51586b58168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 53/71] fix: keep the model of a session when an operation
 fails before changing the database

---
 pysqlsync/base.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 1ffa29e..e45e52e 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1058,17 +1058,27 @@ class BaseContext(abc.ABC):
         "Creates tables, structs, enumerations, constraints, etc. corresponding to entity class definitions."
 
         generator = self.connection.generator
-        statement = generator.create(tables=tables)
-        if statement:
-            await self.execute(statement)
+        state = generator.state
+        try:
+            statement = generator.create(tables=tables)
+            if statement:
+                await self.execute(statement)
+        except BaseException:
+            generator.state = state
+            raise
 
     async def drop_objects(self) -> None:
         "Drops all objects currently synced with the generator. (This function is mainly for unit tests.)"
 
         generator = self.connection.generator
-        statement = generator.drop()
-        if statement:
-            await self.execute(statement)
+        state = generator.state
+        try:
+            statement = generator.drop()
+            if statement:
+                await self.execute(statement)
+        except BaseException:
+            generator.state = state
+            raise
 
     async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts data in the database table corresponding to the dataclass type."
@@ -1552,7 +1562,7 @@ class Explorer(abc.ABC):
         entity_modules = _module_or_list(module, modules)
 
         generator = self.conn.connection.generator
-        generator.reset()
+        state = Catalog([])
 
         for entity_module in entity_modules:
             ns_name = generator.converter.options.namespaces.get(entity_module.__name__)
@@ -1560,8 +1570,9 @@ class Explorer(abc.ABC):
                 ns = await self.get_namespace(LocalId(ns_name))
             else:
                 ns = await self.get_namespace_current()
-            generator.state.merge(Catalog([ns]))
+            state.merge(Catalog([ns]))
 
+        generator.state = state
         LOGGER.debug("found %d namespaces", len(generator.state.namespaces))
         for ns in generator.state.namespaces.values():
             LOGGER.debug("found %d enum(s) in namespace %s", len(ns.enums), ns.name)
@@ -1601,10 +1612,14 @@ class Explorer(abc.ABC):
         generator = self.conn.connection.generator
 
         # determine target database schema
-        generator.reset()
-        generator.create(tables=get_entity_types(entity_modules))
-        target_state = generator.state
-        LOGGER.debug("desired state:\n%s", generator.state)
+        state = generator.state
+        try:
+            generator.reset()
+            generator.create(tables=get_entity_types(entity_modules))
+            target_state = generator.state
+        finally:
+            generator.state = state
+        LOGGER.debug("desired state:\n%s", target_state)
 
         # acquire current database schema
         await self.discover(modules=entity_modules)
-- 
2.43.0


From 15c1c69c3e0a0cffb8829d268bb26bf6d54ac03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:49 +0000
Subject: [PATCH 54/71] fix: verify the host name on Redshift when asked to

---
 pysqlsync/dialect/redshift/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index c358160..f47ce4a 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -15,6 +15,7 @@ from pysqlsync.base import (
     QueryException,
     RecordType,
 )
+from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
@@ -38,8 +39,11 @@ class RedshiftConnection(BaseConnection):
     @thread_dispatch
     def open(self) -> BaseContext:
         LOGGER.info("connecting to %s", self.params)
+        # without an explicit mode, the driver tolerates a host name mismatch
+        verify_full = self.params.ssl is ConnectionSSLMode.verify_full
         conn = redshift_connector.connect(
             iam=True,
+            sslmode="verify-full" if verify_full else None,
             host=self.params.host,
             port=self.params.port,
             database=self.params.database,
-- 
2.43.0


From 4b6589f7afc6f59d97c203e454d36ff1dedf7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 55/71] fix: generate classes for tables with tiny integers,
 decimals of given precision and arrays

---
 pysqlsync/formation/sql_to_py.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 3e80ad7..ef08dfb 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -14,6 +14,7 @@ from strong_typing.auxiliary import (
     Length,
     MaxLength,
     Precision,
+    Storage,
     TimePrecision,
     float32,
     float64,
@@ -57,7 +58,9 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     if isinstance(sql_type, SqlBooleanType):
         return bool
     elif isinstance(sql_type, SqlIntegerType):
-        if sql_type.width == 2:
+        if sql_type.width == 1:
+            return Annotated[int, Storage(1)]
+        elif sql_type.width == 2:
             return int16
         elif sql_type.width == 4:
             return int32
@@ -73,6 +76,10 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
             return Annotated[float, Precision(sql_type.precision)]
         return float
     elif isinstance(sql_type, SqlDecimalType):
+        if sql_type.precision is not None:
+            return Annotated[
+                decimal.Decimal, Precision(sql_type.precision, sql_type.scale or 0)
+            ]
         return decimal.Decimal
     elif isinstance(sql_type, SqlTimestampType):
         if sql_type.precision is not None:
@@ -99,7 +106,7 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     elif isinstance(sql_type, SqlUserDefinedType):
         return sql_type.ref.compact_id
     elif isinstance(sql_type, SqlArrayType):
-        item_type = (sql_type_to_python(sql_type.element_type),)
+        item_type = sql_type_to_python(sql_type.element_type)
         return list[item_type]  # type: ignore
 
     raise TypeError(f"unrecognized SQL type: {sql_type}")
-- 
2.43.0


From 1797e5be2afa9c4157cd797e5cd4227f7b0a1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 56/71] fix: resolve references between generated classes

---
 pysqlsync/formation/sql_to_py.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index ef08dfb..561a74f 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -7,7 +7,7 @@ import types
 import typing
 from dataclasses import dataclass
 from io import StringIO
-from typing import Annotated, Any, Optional, Union
+from typing import Annotated, Any, ForwardRef, Optional, Union
 from uuid import UUID
 
 from strong_typing.auxiliary import (
@@ -129,8 +129,21 @@ class SqlConverter:
     def __init__(self, options: SqlConverterOptions) -> None:
         self.options = options
 
-    def qual_to_module(self, id: SupportsQualifiedId) -> str:
-        return f"{self.options.namespaces[id.scope_id].__name__}.{safe_id(id.local_id)}"
+    def qual_to_type(self, id: SupportsQualifiedId, module: types.ModuleType) -> Any:
+        """
+        Refers to the class that corresponds to a database object.
+
+        :param id: The qualified name of the database object.
+        :param module: The module in which the reference occurs.
+        """
+
+        target = self.options.namespaces[id.scope_id]
+        class_name = safe_id(id.local_id)
+        if target is module:
+            # the class may be defined later
+            return ForwardRef(class_name)
+        else:
+            return getattr(target, class_name)
 
     def column_to_field(
         self, table: Table, column: Column
@@ -142,6 +155,7 @@ class SqlConverter:
         """
 
         field_name = safe_id(column.name.local_id)
+        module = self.options.namespaces[table.name.scope_id]
 
         default: Any = dataclasses.MISSING
         if column.default is not None:
@@ -161,9 +175,11 @@ class SqlConverter:
                 continue
 
             if isinstance(c, ForeignConstraint):
-                field_type = self.qual_to_module(c.reference.table)
+                field_type = self.qual_to_type(c.reference.table, module)
             elif isinstance(c, DiscriminatedConstraint):
-                union_types = tuple(self.qual_to_module(r.table) for r in c.references)
+                union_types = tuple(
+                    self.qual_to_type(r.table, module) for r in c.references
+                )
                 field_type = Union[union_types]
 
         # use cast to ensure compatibility with signature of `make_dataclass`
-- 
2.43.0


From e82300c7655e283a9642d8a0c2ae7a6b0b983b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 57/71] fix: retain keys, uniqueness and optional references in
 generated classes

---
 pysqlsync/formation/sql_to_py.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 561a74f..1bee092 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -44,7 +44,7 @@ from ..model.data_types import (
     SqlVariableCharacterType,
 )
 from ..model.id_types import SupportsQualifiedId
-from ..model.key_types import PrimaryKey
+from ..model.key_types import Identity, PrimaryKey, Unique
 from .object_types import (
     Column,
     DiscriminatedConstraint,
@@ -162,11 +162,6 @@ class SqlConverter:
             default = column.default
 
         field_type = sql_type_to_python(column.data_type)
-        if column.name == table.primary_key:
-            field_type = PrimaryKey[(field_type,)]  # type: ignore
-        elif column.nullable:
-            field_type = Optional[field_type]
-
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
                 continue
@@ -182,6 +177,15 @@ class SqlConverter:
                 )
                 field_type = Union[union_types]
 
+        if column.nullable:
+            field_type = Optional[field_type]
+        if column.identity:
+            field_type = Identity[field_type]  # type: ignore
+        if table.is_primary_column(column.name):
+            field_type = PrimaryKey[field_type]  # type: ignore
+        elif table.is_unique_column(column):
+            field_type = Unique[field_type]  # type: ignore
+
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
-- 
2.43.0


From d5eb29024119d974104497a2b58f5376e8848d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 58/71] fix: retain descriptions of columns in generated
 classes

---
 pysqlsync/formation/sql_to_py.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 1bee092..4b68bd1 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -217,10 +217,10 @@ class SqlConverter:
                 class_name, fields, namespace={"__module__": module.__name__}
             )
         with StringIO() as out:
-            for field in dataclasses.fields(typ):
-                description = field.metadata.get("description")
-                if description is not None:
-                    print(f":param {field.name}: {description}", file=out)
+            for column in table.columns.values():
+                if column.description is not None:
+                    field_name = safe_id(column.name.local_id)
+                    print(f":param {field_name}: {column.description}", file=out)
             paramstring = out.getvalue()
         with StringIO() as out:
             if table.description:
-- 
2.43.0


From 542143da24ed367a81204c7d18ed909e67fd1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 59/71] fix: convert default values of columns in generated
 classes

---
 pysqlsync/formation/sql_to_py.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 4b68bd1..d579095 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -112,6 +112,34 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     raise TypeError(f"unrecognized SQL type: {sql_type}")
 
 
+def sql_default_to_python(default: str, sql_type: SqlDataType) -> Any:
+    "Converts the literal that is the default value of a column."
+
+    if default.upper() in ("TRUE", "FALSE"):
+        return default.upper() == "TRUE"
+
+    if default.startswith("'") and default.endswith("'"):
+        text = default[1:-1].replace("''", "'")
+        if isinstance(sql_type, SqlTimestampType):
+            return datetime.datetime.fromisoformat(text)
+        elif isinstance(sql_type, SqlDateType):
+            return datetime.date.fromisoformat(text)
+        elif isinstance(sql_type, SqlTimeType):
+            return datetime.time.fromisoformat(text)
+        return text
+
+    if isinstance(sql_type, SqlBooleanType):
+        return bool(int(default))
+    elif isinstance(sql_type, SqlIntegerType):
+        return int(default)
+    elif isinstance(sql_type, (SqlRealType, SqlDoubleType, SqlFloatType)):
+        return float(default)
+    elif isinstance(sql_type, SqlDecimalType):
+        return decimal.Decimal(default)
+
+    raise TypeError(f"unrecognized default value: {default}")
+
+
 def safe_id(id: str) -> str:
     "Apply PEP 8: single trailing underscore to avoid conflicts with Python keyword"
 
@@ -159,7 +187,7 @@ class SqlConverter:
 
         default: Any = dataclasses.MISSING
         if column.default is not None:
-            default = column.default
+            default = sql_default_to_python(column.default, column.data_type)
 
         field_type = sql_type_to_python(column.data_type)
         for c in table.constraints.values():
-- 
2.43.0


From e356bca405e035ba50689b3144dfc551c6091eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 60/71] fix: import the names that generated source code refers
 to

---
 pysqlsync/python_types.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ccb9c5e..80e6347 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -25,17 +25,28 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
     print("from __future__ import annotations", file=target)
     print("import dataclasses", file=target)
     print("import enum", file=target)
-    print("from datetime import datetime, date, time", file=target)
+    print("from datetime import datetime, date, time, timedelta", file=target)
     print("from decimal import Decimal", file=target)
+    print("from ipaddress import IPv4Address, IPv6Address", file=target)
     print("from uuid import UUID", file=target)
     print(
-        "from typing import Annotated, Dict, List, Literal, Optional, Union",
+        "from typing import Annotated, Any, ClassVar, Dict, List, Literal, Optional, Union",
         file=target,
     )
     print(
-        "from strong_typing.auxiliary import int16, int32, int64, float32, float64, MaxLength, Precision, TimePrecision",
+        "from strong_typing.auxiliary import int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, "
+        "IntegerRange, Length, MaxLength, MinLength, Precision, Signed, Storage, TimePrecision",
         file=target,
     )
+    print("from strong_typing.core import JsonType", file=target)
+    print(
+        "from pysqlsync.model.key_types import DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag",
+        file=target,
+    )
+    print(file=target)
+    print("Identity = IdentityTag()", file=target)
+    print("PrimaryKey = PrimaryKeyTag()", file=target)
+    print("Unique = UniqueTag()", file=target)
     print(file=target)
 
     for cls in get_module_classes(module):
@@ -125,7 +136,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
             )
-            initializer = f" = field({initializer_list})"
+            initializer = f" = dataclasses.field({initializer_list})"
 
         print(f"    {field.name}: {type_name}{initializer}", file=target)
 
-- 
2.43.0


From 9ad8b68adcf96f830c6508094732f3607e153877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 61/71] fix: write date and time defaults and descriptions as
 valid source code

---
 pysqlsync/python_types.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index 80e6347..ee482cd 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -1,4 +1,5 @@
 import dataclasses
+import datetime
 import enum
 import inspect
 import io
@@ -120,7 +121,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
 
         field_initializer: dict[str, str] = {}
         if field.default is not dataclasses.MISSING:
-            field_initializer["default"] = repr(field.default)
+            field_initializer["default"] = _value_to_str(field.default)
         if field.default_factory is not dataclasses.MISSING:
             field_initializer["default_factory"] = fmt.python_type_to_str(
                 field.default_factory
@@ -131,7 +132,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
         if not field_initializer:
             initializer = ""
         elif field.default is not dataclasses.MISSING and len(field_initializer) == 1:
-            initializer = f" = {repr(field.default)}"
+            initializer = f" = {_value_to_str(field.default)}"
         else:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
@@ -193,10 +194,22 @@ def enum_class_to_code(enum_class: type[enum.Enum]) -> str:
         return out.getvalue()
 
 
+def _value_to_str(value: object) -> str:
+    "Writes a value in terms of the names imported by generated code."
+
+    text = repr(value)
+    if isinstance(value, (datetime.date, datetime.time, datetime.timedelta)):
+        return text[len("datetime.") :]
+    return text
+
+
 def _wrap_print(text: str, file: TextIO) -> None:
     if not text:
         return
 
+    # permit backslashes and quotes in a docstring
+    text = text.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
+
     # wrap long lines
     for line in textwrap.wrap(
         text,
-- 
2.43.0


From 8b294512cd4cef4ecd66cb567ce2a04ee5c13b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:51 +0000
Subject: [PATCH 62/71] fix: resolve user-defined types in generated classes

---
 pysqlsync/formation/sql_to_py.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index d579095..713f50e 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -43,7 +43,7 @@ from ..model.data_types import (
     SqlUuidType,
     SqlVariableCharacterType,
 )
-from ..model.id_types import SupportsQualifiedId
+from ..model.id_types import GlobalId, SupportsQualifiedId
 from ..model.key_types import Identity, PrimaryKey, Unique
 from .object_types import (
     Column,
@@ -103,11 +103,6 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
         return UUID
     elif isinstance(sql_type, SqlJsonType):
         return JsonType
-    elif isinstance(sql_type, SqlUserDefinedType):
-        return sql_type.ref.compact_id
-    elif isinstance(sql_type, SqlArrayType):
-        item_type = sql_type_to_python(sql_type.element_type)
-        return list[item_type]  # type: ignore
 
     raise TypeError(f"unrecognized SQL type: {sql_type}")
 
@@ -173,6 +168,20 @@ class SqlConverter:
         else:
             return getattr(target, class_name)
 
+    def column_type_to_python(self, sql_type: SqlDataType) -> TypeLike:
+        "Converts a column type, looking up user-defined types in the module that corresponds to their namespace."
+
+        if isinstance(sql_type, SqlArrayType):
+            item_type = self.column_type_to_python(sql_type.element_type)
+            return list[item_type]  # type: ignore
+        elif isinstance(sql_type, SqlUserDefinedType) and not isinstance(
+            sql_type.ref, GlobalId
+        ):
+            target = self.options.namespaces[sql_type.ref.scope_id]
+            return getattr(target, safe_id(sql_type.ref.local_id))
+        else:
+            return sql_type_to_python(sql_type)
+
     def column_to_field(
         self, table: Table, column: Column
     ) -> tuple[str, type, dataclasses.Field]:
@@ -189,7 +198,7 @@ class SqlConverter:
         if column.default is not None:
             default = sql_default_to_python(column.default, column.data_type)
 
-        field_type = sql_type_to_python(column.data_type)
+        field_type = self.column_type_to_python(column.data_type)
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
                 continue
-- 
2.43.0


From 3ddb017465430c7bbe12a545d001516278c1c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:46 +0000
Subject: [PATCH 63/71] fix: Oracle discovery pairs the columns of composite
 foreign keys

---
 pysqlsync/dialect/oracle/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index bc494d5..eef6888 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -210,7 +210,7 @@ class OracleExplorer(Explorer):
             "FROM dba_constraints t\n"
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
-            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
+            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name AND tc.position = rc.position\n"
             f"WHERE t.owner = {CURRENT_SCHEMA} AND {condition}\n"
             "ORDER BY tc.position",
         )
-- 
2.43.0


From ee860e54f36b91ec25ffd487e041b1ce5ef7c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 64/71] fix: PostgreSQL discovery keeps the order of the
 columns of keys

---
 pysqlsync/dialect/postgresql/discovery.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 3debd25..88ee81d 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -348,9 +348,10 @@ class PostgreSQLExplorer(Explorer):
             "    con.conrelid AS pkeyrel,\n"
             "    tgt.pkeycol,\n"
             "    con.confrelid AS fkeyrel,\n"
-            "    tgt.fkeycol\n"
+            "    tgt.fkeycol,\n"
+            "    tgt.keypos\n"
             "FROM pg_catalog.pg_constraint AS con\n"
-            "    CROSS JOIN UNNEST(con.conkey, con.confkey) AS tgt(pkeycol, fkeycol)\n"
+            "    CROSS JOIN UNNEST(con.conkey, con.confkey) WITH ORDINALITY AS tgt(pkeycol, fkeycol, keypos)\n"
             "    INNER JOIN pg_catalog.pg_class AS cls ON con.conrelid = cls.oid\n"
             "    INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
             f"WHERE {self._where_table(table_id)} AND con.contype IN ('p', 'u', 'f')\n"
@@ -358,7 +359,8 @@ class PostgreSQLExplorer(Explorer):
             "    INNER JOIN pg_catalog.pg_attribute AS att_s ON cons.pkeyrel = att_s.attrelid AND cons.pkeycol = att_s.attnum\n"
             "    LEFT JOIN pg_catalog.pg_class AS cls_t ON cons.fkeyrel = cls_t.oid\n"
             "    LEFT JOIN pg_catalog.pg_namespace AS nsp_t ON cls_t.relnamespace = nsp_t.oid\n"
-            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum",
+            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum\n"
+            "ORDER BY cons.keypos",
         )
 
         primary: list[LocalId] = []
-- 
2.43.0


From 0c1820c952cf9c2a315da530ed0f17facb2510e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 65/71] fix: references to the current schema when it is mapped
 by its name

---
 pysqlsync/base.py                         | 16 ++++++++++++++++
 pysqlsync/dialect/postgresql/discovery.py | 14 ++------------
 pysqlsync/formation/discovery.py          |  4 ++--
 pysqlsync/formation/py_to_sql.py          |  5 +++++
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index e45e52e..3ab5cdd 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1510,6 +1510,22 @@ class Explorer(abc.ABC):
     ) -> SupportsQualifiedId:
         return QualifiedId(namespace, id)
 
+    async def get_reference_scope(
+        self, object_id: SupportsQualifiedId, schema: str
+    ) -> Optional[str]:
+        """
+        Scope for the identifier of an object that another object refers to.
+
+        Objects in the current schema have unqualified names if a Python module is mapped to the default namespace.
+        """
+
+        if schema != object_id.scope_id and schema == await self.conn.current_schema():
+            namespaces = self.conn.connection.generator.converter.options.namespaces
+            if object_id.scope_id is None or namespaces.has_default():
+                return None
+
+        return schema
+
     @abc.abstractmethod
     async def get_table_names(self) -> list[QualifiedId]: ...
 
diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 88ee81d..48bbac1 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -141,16 +141,6 @@ class PostgreSQLExplorer(Explorer):
         else:
             return "nsp.nspname = CURRENT_SCHEMA()"
 
-    async def _get_scope(
-        self, object_id: SupportsQualifiedId, schema: str
-    ) -> Optional[str]:
-        "Scope of objects that an object refers to. (Objects in the current schema may have unqualified names.)"
-
-        if schema != object_id.scope_id and schema == await self.conn.current_schema():
-            return None
-        else:
-            return schema
-
     async def _get_data_type(
         self,
         object_id: SupportsQualifiedId,
@@ -167,7 +157,7 @@ class PostgreSQLExplorer(Explorer):
         if isinstance(data_type, SqlUserDefinedType):
             ref = data_type.ref
             if isinstance(ref, QualifiedId):
-                scope_id = await self._get_scope(object_id, type_schema)
+                scope_id = await self.get_reference_scope(object_id, type_schema)
                 data_type.ref = dataclasses.replace(ref, namespace=scope_id)
         return SqlArrayType(data_type) if is_array else data_type
 
@@ -376,7 +366,7 @@ class PostgreSQLExplorer(Explorer):
                     con.constraint_name,
                     LocalId(con.source_column),
                     QualifiedId(
-                        await self._get_scope(table_id, con.target_namespace),
+                        await self.get_reference_scope(table_id, con.target_namespace),
                         con.target_table,
                     ),
                     LocalId(con.target_column),
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index bc0bfef..5a3c787 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -305,8 +305,8 @@ class AnsiExplorer(Explorer):
             if scope_id == con.fk_table_schema:
                 # tables in the same schema share the scope of the referring table
                 scope_id = table_id.scope_id
-            elif scope_id == await self.conn.current_schema():
-                scope_id = None
+            else:
+                scope_id = await self.get_reference_scope(table_id, con.uq_table_schema)
             constraints.add(
                 con.fk_constraint_name,
                 LocalId(con.fk_column_name),
diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 15e2c69..9ef55b5 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -227,6 +227,11 @@ class NamespaceMapping:
         else:
             self.dictionary = {}
 
+    def has_default(self) -> bool:
+        "True if some Python module is associated with the default namespace."
+
+        return None in self.dictionary.values()
+
     def get(self, name: str) -> Optional[str]:
         module = sys.modules[name]
         if module in self.dictionary:
-- 
2.43.0


From 63dd387802b4b1d577f5dc8ab4b36bcfaef58b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 66/71] fix: defaults of timestamps and times with fractions of
 a second on Oracle and Snowflake

---
 pysqlsync/dialect/oracle/discovery.py       | 2 +-
 pysqlsync/dialect/oracle/object_types.py    | 4 ++--
 pysqlsync/dialect/snowflake/object_types.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index eef6888..8d4583c 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -99,7 +99,7 @@ class OracleExplorer(Explorer):
         "Converts a date or time literal into the string that it has been created from."
 
         m = re.fullmatch(
-            r"(?:DATE|TIMESTAMP) ('[^']*')|INTERVAL '0 (\d{2}:\d{2}:\d{2})' DAY TO SECOND",
+            r"(?:DATE|TIMESTAMP) ('[^']*')|INTERVAL '0 (\d{2}:\d{2}:\d{2}(?:\.\d+)?)' DAY TO SECOND",
             expr.strip(),
         )
         if m is None:
diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index fed9b52..340d933 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -12,7 +12,7 @@ class OracleColumn(Column):
 
         if isinstance(self.data_type, SqlTimestampType):
             m = re.match(
-                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})'$",
+                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2}(\.\d+)?)'$",
                 self.default,
             )
             if m:
@@ -21,7 +21,7 @@ class OracleColumn(Column):
             if re.match(r"^'\d{4}-\d{2}-\d{2}'$", self.default):
                 return f"DATE {self.default}"
         elif isinstance(self.data_type, SqlTimeType):
-            m = re.match(r"^'(?P<time>\d{2}:\d{2}:\d{2})'$", self.default)
+            m = re.match(r"^'(?P<time>\d{2}:\d{2}:\d{2}(\.\d+)?)'$", self.default)
             if m:
                 return f"INTERVAL '0 {m.group('time')}' DAY TO SECOND"
 
diff --git a/pysqlsync/dialect/snowflake/object_types.py b/pysqlsync/dialect/snowflake/object_types.py
index c9c3b8c..983df4f 100644
--- a/pysqlsync/dialect/snowflake/object_types.py
+++ b/pysqlsync/dialect/snowflake/object_types.py
@@ -54,7 +54,7 @@ class SnowflakeColumn(Column):
 
         if isinstance(self.data_type, SqlTimestampType):
             m = re.match(
-                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})'$",
+                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2}(\.\d+)?)'$",
                 self.default,
             )
             if m:
-- 
2.43.0


From c1223fa857739fa22878ec314a7be96b84433180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:57 +0000
Subject: [PATCH 67/71] fix: Oracle drops the tables of a namespace in the
 current schema only

---
 pysqlsync/dialect/oracle/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 649fc65..1ab874a 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -156,6 +156,7 @@ class OracleContext(BaseContext):
     async def drop_schema(self, namespace: LocalId) -> None:
         LOGGER.debug("drop schema: %s", namespace)
         condition = (
+            "owner = SYS_CONTEXT('USERENV', 'CURRENT_SCHEMA') AND "
             f"table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~'"
         )
         tables = await self.query_all(
-- 
2.43.0


From a7bfd022895ec4b5fb489f3fd2c0d80d15237405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 68/71] fix: retain paragraphs of descriptions in generated
 source code

---
 pysqlsync/python_types.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ee482cd..eb9e050 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -210,13 +210,17 @@ def _wrap_print(text: str, file: TextIO) -> None:
     # permit backslashes and quotes in a docstring
     text = text.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
 
-    # wrap long lines
-    for line in textwrap.wrap(
-        text,
-        width=139,
-        initial_indent="    ",
-        subsequent_indent="    ",
-        break_long_words=False,
-        break_on_hyphens=False,
-    ):
-        print(line, file=file)
+    for index, paragraph in enumerate(re.split(r"\n\s*\n", text)):
+        if index > 0:
+            print(file=file)
+
+        # wrap long lines
+        for line in textwrap.wrap(
+            paragraph,
+            width=139,
+            initial_indent="    ",
+            subsequent_indent="    ",
+            break_long_words=False,
+            break_on_hyphens=False,
+        ):
+            print(line, file=file)
-- 
2.43.0


From 18e4c294cccbbd01335a379ce521ebd3d9fd3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 69/71] fix: permit skipped annotations on Boolean, date and
 UUID fields

---
 pysqlsync/formation/py_to_sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 9ef55b5..1ce65bd 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -463,7 +463,8 @@ class DataclassConverter:
             if sql_type:
                 return sql_type
 
-            typ = unadorned_type
+            # only skipped annotations are applied
+            return self.simple_type_to_sql_data_type(unadorned_type)
 
         if is_type_enum(typ):
             value_type = enum_value_type(typ)
-- 
2.43.0


From e62342a577050253a0f876a6856379e6da8fafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 70/71] fix: discover the precision of times of day with
 PostgreSQL, MySQL and Microsoft SQL Server

---
 pysqlsync/dialect/mysql/data_types.py | 10 ++++++++++
 pysqlsync/dialect/mysql/discovery.py  |  3 +++
 pysqlsync/dialect/mysql/generator.py  |  3 ++-
 pysqlsync/formation/data_types.py     | 13 ++++++++++++-
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index cda05b6..39678d2 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -1,5 +1,6 @@
 from pysqlsync.model.data_types import (
     SqlTimestampType,
+    SqlTimeType,
     SqlVariableBinaryType,
     SqlVariableCharacterType,
 )
@@ -14,6 +15,15 @@ class MySQLDateTimeType(SqlTimestampType):
         return f"datetime{precision}"
 
 
+class MySQLTimeType(SqlTimeType):
+    def __str__(self) -> str:
+        if self.precision is not None and self.precision > 0:
+            precision = f"({self.precision})"
+        else:
+            precision = ""
+        return f"time{precision}"
+
+
 class MySQLVariableCharacterType(SqlVariableCharacterType):
     def __str__(self) -> str:
         if self.limit is None:
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 79136c9..996ab06 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -17,6 +17,7 @@ from pysqlsync.model.data_types import (
     SqlFloatType,
     SqlIntegerType,
     SqlRealType,
+    SqlTimeType,
     quote,
 )
 from pysqlsync.model.id_types import LocalId, PrefixedId, SupportsQualifiedId
@@ -123,6 +124,8 @@ class MySQLExplorer(AnsiExplorer):
             # drop default precision and scale
             if data_type == SqlDecimalType(10, 0):
                 data_type = SqlDecimalType()
+            elif data_type == SqlTimeType(0):
+                data_type = SqlTimeType()
 
             columns.append(
                 self.factory.column_class(
diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 8f09a3a..f3f7106 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -18,7 +18,7 @@ from pysqlsync.model.data_types import SqlFixedBinaryType, SqlIntegerType
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
-from .data_types import MySQLDateTimeType, MySQLVariableCharacterType
+from .data_types import MySQLDateTimeType, MySQLTimeType, MySQLVariableCharacterType
 from .mutation import MySQLMutator
 from .object_types import MySQLObjectFactory
 
@@ -51,6 +51,7 @@ class MySQLGenerator(BaseGenerator):
                 substitutions={
                     bool: SqlIntegerType(1),
                     datetime.datetime: MySQLDateTimeType(),
+                    datetime.time: MySQLTimeType(),
                     uuid.UUID: SqlFixedBinaryType(16),
                     str: MySQLVariableCharacterType(16777215),
                     ipaddress.IPv4Address: SqlFixedBinaryType(4),
diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index aae34e5..7a0cc74 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -109,6 +109,17 @@ class SqlDiscovery:
             else:
                 return SqlTimestampType(int(m.group(1)), False)
 
+        m = re.fullmatch(
+            r"^time[(](\d+)[)]\s*(with(?:out)? time zone)?$",
+            type_def,
+            re.IGNORECASE,
+        )
+        if m is not None:
+            if m.group(2) == "with time zone":
+                return SqlTimeType(int(m.group(1)), True)
+            else:
+                return SqlTimeType(int(m.group(1)), False)
+
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
             return SqlFixedCharacterType(int(m.group(1)))
@@ -183,7 +194,7 @@ class SqlDiscovery:
             if datetime_precision is not None and datetime_precision > 0:
                 sql_type.precision = datetime_precision
         elif isinstance(sql_type, SqlTimeType):
-            if datetime_precision is not None and datetime_precision > 0:
+            if datetime_precision is not None:
                 sql_type.precision = datetime_precision
         elif isinstance(sql_type, SqlFixedCharacterType):
             if character_maximum_length is not None:
-- 
2.43.0


From a180f5ecd769e40a92666e9bbafb1081ea803c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:05 +0000
Subject: [PATCH 71/71] fix: bind decimals without precision with the precision
 of the column on SQL Server

---
 pysqlsync/dialect/mssql/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index ebe7506..1180e72 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -90,7 +90,7 @@ def sql_to_odbc_type(data_type: SqlDataType) -> tuple[int, int, int]:
     elif isinstance(data_type, SqlFloatType):
         return pyodbc.SQL_FLOAT, data_type.precision or 53, 0
     elif isinstance(data_type, SqlDecimalType):
-        return pyodbc.SQL_DECIMAL, data_type.precision or 15, data_type.scale or 0
+        return pyodbc.SQL_DECIMAL, data_type.precision or 18, data_type.scale or 0
 
     elif isinstance(data_type, SqlTimestampType):
         return pyodbc.SQL_TYPE_TIMESTAMP, data_type.precision or 6, 0
-- 
2.43.0

