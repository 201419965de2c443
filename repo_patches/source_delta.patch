From 4ab038630407be2fb181f1078bd117d602e91839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 01/77] fix: close the parenthesis of the instrument parameter
 macros around the SAVE code

---
 src/mccode_antlr/translators/c_save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index b4eeb49..4fdcd61 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -22,7 +22,7 @@ def cogen_save(source, declared_parameters):
         ])
         for par in source.parameters:
             # ensure there's no conflict of names
-            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name}')
+            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name})')
         for block in source.save:
             lines.append(block.to_c())
         for par in source.parameters:
-- 
2.43.0


From 9dbb5693954424a7a2e87a00bd26699dae620bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 02/77] fix: escape a lone double quote in the instrument
 parameter table

---
 src/mccode_antlr/translators/c_decls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 65c713e..ccd3df8 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -65,7 +65,7 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
             z = '' if x is None else f'{x}'
             if z == '"':
                 logger.info('single double-quote found in parameter value -- escaping to avoid C syntax error')
-                z = '\"'
+                z = '\\"'
             return z if len(z) and z[0] == '"' and z[-1] == '"' else f'"{z}"'
 
         def one_line(name, typename, value, unit):
-- 
2.43.0


From 1e2d779defa8c04dc0646bc7590f1df90615935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 03/77] fix: undefine mcget_run_num after the TRACE section

---
 src/mccode_antlr/translators/c_trace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/translators/c_trace.py b/src/mccode_antlr/translators/c_trace.py
index 4ffc3df..1637f5d 100644
--- a/src/mccode_antlr/translators/c_trace.py
+++ b/src/mccode_antlr/translators/c_trace.py
@@ -71,6 +71,7 @@ def undef_trace_section(is_mcstas: bool):
         "#undef ABSORBED",
         "#undef ABSORB",
         "#undef ABSORB0",
+        "#undef mcget_run_num",
     ])
     return '\n'.join(lines)
 
-- 
2.43.0


From ec1fc1ba3477698aa5e2e6673738b7cad009e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 04/77] fix: leave a GROUP after its last component in FUNNEL
 mode

---
 src/mccode_antlr/translators/c_raytrace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 03adf47..7b764d5 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -398,9 +398,9 @@ def cogen_funnel(source, ok_to_skip):
             ln = group.last.name
             lid = group.last_id
             lines.extend([
-                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{lid}]',
+                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{1+lid}]',
                 # Skip over when SCATTERED in the group:
-                f'    if (SCATTERED) _particle->_index = {lid}; '
+                f'    if (SCATTERED) _particle->_index = {1+lid}; '
                 '// when SCATTERED in GROUP: reach exit of GROUP after {ln}',
                 #
             ])
-- 
2.43.0


From b7ced723d1dbadb1b85747ac7e12c816f2787ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 05/77] fix: escape metadata labels and NeXus expression text
 in generated C string literals

---
 src/mccode_antlr/translators/c_decls.py      | 3 ++-
 src/mccode_antlr/translators/c_initialise.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index ccd3df8..5a0de15 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -80,7 +80,8 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def metadata_table():
         def one_line(defined_by, name, mimetype, value):
             from ..common.utilities import escape_str_for_c
-            return f' {{"{defined_by}", "{name}", "{mimetype}", "{escape_str_for_c(value)}"}}, '
+            entries = [f'"{escape_str_for_c(x)}"' for x in (defined_by, name, mimetype, value)]
+            return f' {{{", ".join(entries)}}}, '
 
         metadata = source.collect_metadata()
         lines = ['struct metadata_table_struct metadata_table[] = {']
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index d0582ea..f167007 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -101,6 +101,7 @@ def cogen_comp_init_position(index, comp, last, instr):
 
 def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     from ..common import Expr
+    from ..common.utilities import escape_str_for_c
 
     def parameter_line(default):
         # cogen_comp_init_par skipped any parameters which had "val" which evaluates False
@@ -169,7 +170,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             vstr = f'{p.value:p}'
             tstr = f'"{default.value.mccode_c_type}"'
             if not (default.value.is_str or p.value.is_str):
-                dstr, vstr = [f'"{x}"' for x in (dstr, vstr)]
+                dstr, vstr = [f'"{escape_str_for_c(x)}"' for x in (dstr, vstr)]
             lns.append(f'    mccomp_param_nexus(nxhandle, {gstr}, "{default.name}", {dstr}, {vstr}, {tstr});')
 
         return '\n'.join(lns + ['    );','    }','  }', '#endif'])
-- 
2.43.0


From 9b480966aef9290170196925eae84cccecd6820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 06/77] fix: keep the order of compiler flags and of include
 roots the same in every run

---
 src/mccode_antlr/instr/instr.py   | 10 +++++-----
 src/mccode_antlr/translators/c.py |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0acb67b..5602aa6 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -287,14 +287,14 @@ class Instr:
         return flag
 
     @property
-    def unique_flags(self) -> set[str]:
+    def unique_flags(self) -> tuple[str, ...]:
         # Each 'flag' in self.flags is from a single instrument component DEPENDENCY,
         # and might contain duplicates: If we accept that white space differences
-        # matter, we can deduplicate the strings 'easily'
-        uf = set(self.flags)
+        # matter, we can deduplicate the strings 'easily' while keeping their order
+        uf = dict.fromkeys(self.flags)
         if any(inst.cpu for inst in self.components):
-            uf.add('-DFUNNEL')
-        return uf
+            uf['-DFUNNEL'] = None
+        return tuple(uf)
 
     def decoded_flags(self) -> list[str]:
         # The dependency strings are allowed to contain any of
diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 262b0be..ab13983 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -40,7 +40,8 @@ def sort_include_hierarchy(includes: list[CInclude]):
         return []
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
     # find the 'root' of the tree, a parent which is _not_ a named include:
-    roots = list(set([x.parent for x in includes]).difference(set([x.name for x in includes])))
+    names = set(x.name for x in includes)
+    roots = [parent for parent in dict.fromkeys(x.parent for x in includes) if parent not in names]
     options = {}
     for root in roots:
         for include in includes:
-- 
2.43.0


From 884f27ca7c0561ae20c8ea2eceec1201c312fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 07/77] fix: keep the mode of component instances through HDF5
 files

---
 src/mccode_antlr/io/hdf5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 808f0fc..14cad44 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -81,6 +81,7 @@ class DataSourceIO:
 
 
 class InstanceIO:
+    from mccode_antlr.common import Mode
     from mccode_antlr.comp import Comp
     from mccode_antlr.instr import Instance
     attrs = ('name', 'removable', 'cpu', 'group')
@@ -107,6 +108,10 @@ class InstanceIO:
         if ref is not None and ref not in instances:
             raise ValueError(f"Unknown instance reference {ref}")
         values['rotate_relative'] = (ang, instances.get(ref) if ref is not None else None)
+        # the construction mode is an enumeration, stored by name
+        mode = group.attrs.get('mode')
+        if mode is not None:
+            values['mode'] = InstanceIO.Mode[mode]
         return InstanceIO.Instance(**values)
 
     @staticmethod
@@ -124,6 +129,7 @@ class InstanceIO:
         HDF5IO.save(group=group.create_group('rotate_angles'), data=data.rotate_relative[0])
         if data.rotate_relative[1] is not None:
             group.attrs['rotate_reference'] = data.rotate_relative[1].name
+        group.attrs['mode'] = data.mode.name
 
 
 class InstrIO:
-- 
2.43.0


From 297e0660e140c20b669674907d66c0362bc3c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 08/77] fix: keep the angle unit of rotation parts through HDF5
 files

---
 src/mccode_antlr/io/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 14cad44..7a7c9d0 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -234,13 +234,17 @@ def _seitz_part_io(actual_type):
             v = HDF5IO.load(group['v'], **kwargs)
             if v is None:
                 raise ValueError(f"Could not load v for {actual_type}")
-            return actual_type(v=v)
+            # only rotations distinguish their angle units
+            degrees = group.attrs.get('degrees')
+            return actual_type(v=v) if degrees is None else actual_type(v=v, degrees=bool(degrees))
 
         @staticmethod
         def save(group, data, **kwargs):
             _write_header(group, actual_type)
             if data.v is not None:
                 HDF5IO.save(group=group.create_group('v'), data=data.v, **kwargs)
+            if hasattr(data, 'degrees'):
+                group.attrs['degrees'] = data.degrees
 
     return _RotationPartIO
 
-- 
2.43.0


From 24715cbcc89d1eb15724ff06357bdf0937f41b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 09/77] fix: keep the priority of registries through HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 7a7c9d0..0989cb1 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -194,6 +194,8 @@ def RemoteRegistryIO(actual_type):
         def load(group, **kwargs) -> RemoteRegistry:
             _check_header(group, actual_type)
             values = _standard_read(actual_type, group, actual_type.file_keys(), (), (), **kwargs)
+            if 'priority' in group.attrs:
+                values['priority'] = int(group.attrs['priority'])
             try:
                 return actual_type(**values)
             except RuntimeError:
@@ -202,7 +204,7 @@ def RemoteRegistryIO(actual_type):
 
         @staticmethod
         def save(group, data, **kwargs):
-            _standard_save(actual_type, group, data, actual_type.file_keys(), (), **kwargs)
+            _standard_save(actual_type, group, data, actual_type.file_keys() + ('priority',), (), **kwargs)
 
     return _RemoteRegistryIO
 
@@ -213,6 +215,8 @@ class LocalRegistryIO:
     @staticmethod
     def load(group, **kwargs) -> Registry:
         values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root'), (), (), **kwargs)
+        if 'priority' in group.attrs:
+            values['priority'] = int(group.attrs['priority'])
         try:
             return LocalRegistryIO.LocalRegistry(**values)
         except RuntimeError:
@@ -221,7 +225,7 @@ class LocalRegistryIO:
 
     @staticmethod
     def save(group, data, **kwargs):
-        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name',), (), **kwargs)
+        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name', 'priority'), (), **kwargs)
         if data.root is not None:
             group.attrs['root'] = data.root.as_posix()
 
-- 
2.43.0


From 02201a88d8a6d15c0030ca8bcac9802d6c99c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 10/77] fix: store in-memory registries in HDF5 files, which
 could not be read back without

---
 src/mccode_antlr/io/hdf5.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 0989cb1..60d56bf 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -230,6 +230,25 @@ class LocalRegistryIO:
             group.attrs['root'] = data.root.as_posix()
 
 
+class InMemoryRegistryIO:
+    from mccode_antlr.reader.registry import InMemoryRegistry
+
+    @staticmethod
+    def load(group, **kwargs) -> InMemoryRegistry:
+        _check_header(group, InMemoryRegistryIO.InMemoryRegistry)
+        registry = InMemoryRegistryIO.InMemoryRegistry(group.attrs['name'], priority=int(group.attrs['priority']))
+        names = HDF5IO.load(group['names'], **kwargs)
+        registry.components = dict(zip(names, HDF5IO.load(group['definitions'], **kwargs)))
+        return registry
+
+    @staticmethod
+    def save(group, data, **kwargs):
+        _standard_save(InMemoryRegistryIO.InMemoryRegistry, group, data, ('name', 'priority'), (), **kwargs)
+        # the names can look like paths, so can not be used as HDF5 group names
+        HDF5IO.save(group=group.create_group('names'), data=list(data.components.keys()), **kwargs)
+        HDF5IO.save(group=group.create_group('definitions'), data=list(data.components.values()), **kwargs)
+
+
 def _seitz_part_io(actual_type):
     class _RotationPartIO:
         @staticmethod
@@ -426,6 +445,7 @@ class HDF5IO:
         'ModuleRemoteRegistry': RemoteRegistryIO(ModuleRemoteRegistry),
         'GitHubRegistry': RemoteRegistryIO(GitHubRegistry),
         'LocalRegistry': LocalRegistryIO,
+        'InMemoryRegistry': InMemoryRegistryIO,
         'ComponentParameter': _dataclass_io(ComponentParameter, attrs=('name',), required=('value',)),
         'Comp': _dataclass_io(Comp, attrs=('name', 'category', 'dependency', 'acc'),
                               optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
-- 
2.43.0


From 1134f88213d5bf0146388f41a32a6ae87aafbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 11/77] fix: read a component CATEGORY that is an identifier

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1eb543a..c1b495d 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -41,7 +41,7 @@ class CompVisitor(McCompVisitor):
 
     def visitCategory(self, ctx: Parser.CategoryContext):
         # Return the provided identifier or string literal, minus quotes
-        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifer())
+        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
         self.state.TRACE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 9a5a2160c4317cc5c13af721014959a8ab308e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 12/77] fix: read integer array component parameters

---
 src/mccode_antlr/comp/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index c1b495d..4b5fe81 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -121,12 +121,12 @@ class CompVisitor(McCompVisitor):
     def visitComponentParameterIntegerArray(self, ctx: Parser.ComponentParameterIntegerArrayContext):
         from ..common import Value, DataType, ShapeType
         name = str(ctx.Identifier(0))
-        if ctx.assign() is not None and ctx.initializerlist() is not None:
+        if ctx.Assign() is not None and ctx.initializerlist() is not None:
             value = self.visit(ctx.initializerlist())
             value.data_type = DataType.int
         else:
             default = None
-            if ctx.assign() is not None:
+            if ctx.Assign() is not None:
                 default = "NULL"
                 if ctx.Identifier(1) is not None:
                     default = str(ctx.Identifier(1))
-- 
2.43.0


From 5fef96e95d460b31bb6c827bf60f565802eaad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:09 +0000
Subject: [PATCH 13/77] fix: resolve MYSELF and PREVIOUS expressions without
 reading unset attributes

---
 src/mccode_antlr/comp/visitor.py  |  2 +-
 src/mccode_antlr/instr/visitor.py | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 4b5fe81..d3b300b 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -251,7 +251,7 @@ class CompVisitor(McCompVisitor):
 
     def visitExpressionMyself(self, ctx: Parser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.instance.name)
+        return Expr.str(self.instance_name)
 
 
 add_common_visitors(CompVisitor)
\ No newline at end of file
diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e6e68d8..3c148d7 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -378,7 +378,7 @@ class InstrVisitor(McInstrVisitor):
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(self.current_instance_name)
 
 
 class InstrParametersVisitor(McInstrVisitor):
@@ -393,7 +393,9 @@ class InstrParametersVisitor(McInstrVisitor):
 
     def visitInstrument_definition(self, ctx: McInstrParser.Instrument_definitionContext):
         self.state.name = str(ctx.Identifier())
-        self.visitChildren(ctx)
+        # only the parameters: later expressions can refer to components, which are not constructed here
+        if ctx.instrument_parameters() is not None:
+            self.visit(ctx.instrument_parameters())
 
     def visitInstrument_parameters(self, ctx: McInstrParser.Instrument_parametersContext):
         for param in ctx.instrument_parameter():
@@ -424,15 +426,11 @@ class InstrParametersVisitor(McInstrVisitor):
 
     def visitExpressionPrevious(self, ctx: McInstrParser.ExpressionPreviousContext):
         # The very-special no-good expression use of PREVIOUS where it is replaced by the last component's name
-        if len(self.state.components):
-            return Expr.str(self.state.components[-1].name)
-        elif self.destination is not None and len(self.destination.components):
-            return Expr.str(self.destination.components[-1].name)
         raise RuntimeError('PREVIOUS keyword used in expression before any components defined')
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        raise RuntimeError('MYSELF keyword used in expression outside of any component')
 
 
 add_common_visitors(InstrVisitor)
-- 
2.43.0


From 610099724d39394373225ca5d3e05aa8e56d33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:28 +0000
Subject: [PATCH 14/77] fix: run SHELL and SEARCH commands as written, without
 their quotes

---
 src/mccode_antlr/instr/visitor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 3c148d7..69c4a30 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -348,18 +348,19 @@ class InstrVisitor(McInstrVisitor):
 
     def visitShell(self, ctx: McInstrParser.ShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split(' ')
-        run(args, shell=True, check=True)
+        # the command line is the literal string without its quotes
+        run(str(ctx.StringLiteral())[1:-1], shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
-        self.parent.handle_search_keyword(str(ctx.StringLiteral()))
+        self.parent.handle_search_keyword(str(ctx.StringLiteral())[1:-1])
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split()
-        res = run(args, shell=True, capture_output=True, check=True)
-        for specs in res.stdout.decode().split('\n'):
-            self.parent.handle_search_keyword(specs)
+        # the command line is the literal string without its quotes
+        res = run(str(ctx.StringLiteral())[1:-1], shell=True, capture_output=True, check=True)
+        for specs in res.stdout.decode().splitlines():
+            if specs.strip():
+                self.parent.handle_search_keyword(specs)
 
     # TODO Make this and the identical list of visitors in comp/visitor.py a single definition ... somehow
     # FIXME There *are* no statements in McCode, so all identifiers always produce un-parsable values.
-- 
2.43.0


From 5a995b04d8403baefbfca694883f2386791902a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 15/77] fix: keep the compiler flags of an instrument read from
 a file or included

---
 src/mccode_antlr/instr/visitor.py | 1 +
 src/mccode_antlr/reader/reader.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 69c4a30..a58b8b4 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -89,6 +89,7 @@ class InstrVisitor(McInstrVisitor):
             self.state.add_parameter(par, ignore_repeated=True)
         for meta in instr.metadata:
             self.state.add_metadata(meta)
+        self.state.flags += tuple(flag for flag in instr.flags if flag not in self.state.flags)
         if len(instr.declare):
             self.state.declare += instr.declare
         if len(instr.user):
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c9c35da..a3e5975 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -170,6 +170,7 @@ class Reader:
         if not isinstance(res, Instr):
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
-        res.flags = tuple(self.c_flags)
+        # the flags of all components, plus any of the instrument itself
+        res.flags = tuple(self.c_flags) + tuple(flag for flag in res.flags if flag not in self.c_flags)
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From 0376eae466218071614caacc03fd141c329c470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 16/77] fix: keep registries added by SEARCH statements with
 the loaded instrument

---
 src/mccode_antlr/loader/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 5aaffce..b909723 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -23,7 +23,8 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
     instr.flags += tuple(reader.c_flags)
-    instr.registries += tuple(registries)
+    # the provided registries, plus any added by SEARCH statements
+    instr.registries += tuple(registries) + tuple(reg for reg in reader.registries if reg not in registries)
     return instr
 
 
-- 
2.43.0


From 393554477d62d08c5c068af220608ebd0b17b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:14 +0000
Subject: [PATCH 17/77] fix: make_instance sets the group and removable fields
 it was given

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 5602aa6..cd99032 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -389,7 +389,7 @@ class Instr:
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
         self.components += (Instance(name, component, at_relative, rotate_relative, orientation,
-                                     parameters, group, removable),)
+                                     parameters, group=group, removable=removable),)
 
     def mcpl_split(self,
                    after,
-- 
2.43.0


From 7e1fabb8eeb27f74f57d53ddb86047531fc1fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:14 +0000
Subject: [PATCH 18/77] fix: drop the repeated value of an instance parameter,
 as reported

---
 src/mccode_antlr/instr/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e436a05..e63b358 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -124,6 +124,7 @@ class Instance:
                 if par.value != value:
                     logger.info(f'  first-encountered value {par.value} retained')
                     logger.info(f'  newly-encountered value {value} dropped')
+                return
             else:
                 raise RuntimeError(f"Multiple definitions of {name} in component instance {self.name}")
         p = self.type.get_parameter(name)
-- 
2.43.0


From e054406e41ffdfdf51bb69cafb2031954666bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 19/77] fix: an explicitly absolute rotation of an assembled
 component stays absolute

---
 src/mccode_antlr/assembler/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index af2b993..f5f27bd 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -47,7 +47,9 @@ class Assembler:
 
     def _handle_rotate(self, a=None, at_ref=None) -> tuple[Angles, Union[Instance, None]]:
         rot_tuple, ref = self._handle_at_rotate(a)
-        return Angles(*rot_tuple), ref or at_ref
+        # only a rotation without a reference of its own is relative to the same reference as the position
+        has_ref = a is not None and len(a) == 2
+        return Angles(*rot_tuple), ref if has_ref else at_ref
 
     def component(self, name: str, type_name: str, at=None, rotate=None, parameters=None, **kwargs):
         """Add a component to the underlying Instr.
-- 
2.43.0


From 230221dd298f50c356a43b53831cee8ff9c91911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:35 +0000
Subject: [PATCH 20/77] fix: take exactly the enclosing quotes off string
 literals

---
 src/mccode_antlr/common/visitor.py | 2 +-
 src/mccode_antlr/comp/visitor.py   | 2 +-
 src/mccode_antlr/instr/visitor.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d262d29..124dcd8 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -140,7 +140,7 @@ def visitExpressionBinaryGreater(obj, ctx):
     return Expr(BinaryOp('__gt__', left, right))
 
 def visitExpressionString(obj, ctx):
-    strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
+    strings = ''.join(str(sl)[1:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
 
 
diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index d3b300b..4c44625 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -136,7 +136,7 @@ class CompVisitor(McCompVisitor):
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            self.parent.add_c_flags(str(ctx.StringLiteral()).strip('"'))
+            self.parent.add_c_flags(str(ctx.StringLiteral())[1:-1])
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index a58b8b4..d2d68b3 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -82,7 +82,7 @@ class InstrVisitor(McInstrVisitor):
         if self.destination is not None:
             logger.critical(f'including {quoted_filename} from {self.filename}, which is itself included from {self.destination.name}')
             logger.critical('Expect component referencing errors, as the implementation does not cover this use case.')
-        instr = self.parent.get_instrument(quoted_filename.strip('"'), destination=self.state)
+        instr = self.parent.get_instrument(quoted_filename[1:-1], destination=self.state)
         # TODO work out how/what to copy from the other instrument into this one
         self.state.add_included(instr.name)
         for par in instr.parameters:
-- 
2.43.0


From 3d93133692e734cf2e6b432aa65277515e043a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 21/77] fix: read the count of a JUMP PREVIOUS(n) or NEXT(n)

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d2d68b3..e9d16f0 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -239,14 +239,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(i))
+        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(i))
+        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From 59921c804b799c1c873ba67fab27c65348138823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 22/77] fix: SHARE COPY in a copied component definition does
 not repeat the copied block

---
 src/mccode_antlr/comp/visitor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 4c44625..7da95a3 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -157,6 +157,11 @@ class CompVisitor(McCompVisitor):
         self.state.SHARE(self.visit(ctx.unparsed_block()))
 
     def visitShareBlockCopy(self, ctx: Parser.ShareBlockCopyContext):
+        if len(self.state.share):
+            logger.critical(f'The component {self.state.name} is a copied definition, complete with SHARE section')
+            logger.critical(f'Now `SHARE COPY {ctx.Identifier()}` would add to the existing copied SHARE')
+            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
+            self.state.share = ()
         blocks = self.parent.get_component(str(ctx.Identifier())).share
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
-- 
2.43.0


From 19c7dd135901939b41e0883e10d53cfdb1000fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 23/77] fix: an operation can be raised to a power

---
 src/mccode_antlr/common/expression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5726035..0ba47a1 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -278,6 +278,11 @@ class Op:
             return -self
         return BinaryOp('//', self, other)
 
+    def __pow__(self, power):
+        if power.is_value(1):
+            return self
+        return BinaryOp('__pow__', self, power)
+
     def __neg__(self):
         return UnaryOp('-', self)
 
-- 
2.43.0


From 4694e97f968b36078f8f0c0dfea6ccad431e8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 24/77] fix: an operand which binds less tightly than its
 operator is printed in parentheses

---
 src/mccode_antlr/common/expression.py | 62 ++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 0ba47a1..659985b 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -187,8 +187,30 @@ def _comb(f, s: list):
     return ','.join(f(x) for x in s)
 
 
-def _fmt_comb(fmt, s: list):
-    return ','.join(f'{x:{fmt}}' for x in s)
+# How tightly operators bind their operands, in the order of the grammar.
+_BINDING = {'__trinary__': 1, '__or__': 2, '__and__': 2, '__not__': 3, '__gt__': 4, '__lt__': 5, '__ge__': 6,
+            '__le__': 7, '__eq__': 8, '__neq__': 9, '<<': 10, '>>': 11, '%': 12, '+': 13, '-': 13,
+            '*': 14, '/': 14, '//': 14, '__pow__': 15, '__struct_access__': 16, '__pointer_access__': 16}
+_TIGHTEST = 17
+
+
+def _binding(x):
+    """How tightly the outermost printed operator binds its operands"""
+    if isinstance(x, Expr):
+        return _binding(x.expr[0]) if x.is_singular else _TIGHTEST
+    if isinstance(x, UnaryOp) and x.op in ('+', '-'):
+        return _BINDING['*']  # the sign of a product is printed in front of it
+    if not isinstance(x, Op) or x.op in ('+', '-', '%', '<<', '>>', '__struct_access__', '__pointer_access__'):
+        return _TIGHTEST  # these are always printed in parentheses or do not need any
+    return _BINDING.get(x.op, _TIGHTEST)
+
+
+def _operand(f, s: list, least: int, signed=True):
+    """Combine operands, enclosing those which bind less tightly than required, or have a sign when not permitted"""
+    def one(x):
+        text = f(x)
+        return f'({text})' if _binding(x) < least or (text[:1] in ('+', '-') and not signed) else text
+    return _comb(one, s)
 
 
 class Op:
@@ -327,14 +349,18 @@ class TrinaryOp(Op):
                 return f'{first} ? {second} : {third}'
             return f'{second} if {first} else {third}'
 
+    def _combined(self, f):
+        least = _BINDING['__trinary__'] + 1
+        return self._str_repr_(*[_operand(f, x, least) for x in (self.first, self.second, self.third)])
+
     def __str__(self):
-        return self._str_repr_(_comb(str, self.first), _comb(str, self.second), _comb(str, self.third))
+        return self._combined(str)
 
     def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.first), _fmt_comb(format_spec, self.second), _fmt_comb(format_spec, self.third))
+        return self._combined(lambda x: format(x, format_spec))
 
     def __repr__(self):
-        return self._str_repr_(_comb(repr, self.first), _comb(repr, self.second), _comb(repr, self.third))
+        return self._combined(repr)
 
     def __eq__(self, other):
         if not isinstance(other, TrinaryOp):
@@ -451,14 +477,24 @@ class BinaryOp(Op):
             return f'{lstr} {self.op} {rstr}'
         return f'{self.op}({lstr}, {rstr})'
 
+    def _combined(self, f):
+        left, right = (_TIGHTEST, 0) if self.op == '__getitem__' else (0, 0)
+        if self.op in _BINDING:
+            left = right = _BINDING[self.op]
+            # only exponentiation is right associative
+            left, right = (left + 1, right) if self.op == '__pow__' else (left, right + 1)
+        arithmetic = self.op in ('+', '-', '*', '/', '//', '__pow__')
+        return self._str_repr_(_operand(f, self.left, left, signed=self.op != '__pow__'),
+                               _operand(f, self.right, right, signed=not arithmetic))
+
     def __str__(self):
-        return self._str_repr_(_comb(str, self.left), _comb(str, self.right))
+        return self._combined(str)
 
     def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.left), _fmt_comb(format_spec, self.right))
+        return self._combined(lambda x: format(x, format_spec))
 
     def __repr__(self):
-        return self._str_repr_(_comb(repr, self.left), _comb(repr, self.right))
+        return self._combined(repr)
 
     def __eq__(self, other):
         if not isinstance(other, BinaryOp):
@@ -567,14 +603,18 @@ class UnaryOp(Op):
             return f'{self.op}{vstr}'
         return f'{self.op}({vstr})'
 
+    def _combined(self, f):
+        least = _BINDING['__not__'] if self.op == '__not__' else _BINDING['*'] if self.op in ('+', '-') else 0
+        return self._str_repr_(_operand(f, self.value, least, signed=self.op not in ('+', '-')))
+
     def __str__(self):
-        return self._str_repr_(_comb(str, self.value))
+        return self._combined(str)
 
     def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.value))
+        return self._combined(lambda x: format(x, format_spec))
 
     def __repr__(self):
-        return self._str_repr_(_comb(repr, self.value))
+        return self._combined(repr)
 
     def __neg__(self):
         if self.op == '-':
-- 
2.43.0


From c4cbd7d1533108a6d83c43bd9a78006a5ee92eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 25/77] fix: an operation combines with a plain number on its
 right

---
 src/mccode_antlr/common/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 659985b..11c7a1f 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1217,14 +1217,14 @@ class Expr:
     def _prep_numeric_operation(self, msg: str, other):
         if len(self.expr) != 1:
             raise RuntimeError(f'Can not {msg} array Expr')
-        return other.expr[0] if (isinstance(other, Expr) and len(other.expr) == 1) else other
-
-    def _prep_rev_numeric_operation(self, msg: str, other):
-        r = self._prep_numeric_operation(msg, other)
+        r = other.expr[0] if (isinstance(other, Expr) and len(other.expr) == 1) else other
         if not isinstance(r, (Expr, TrinaryOp, BinaryOp, UnaryOp, Value)):
             r = Value.best(r)
         return r
 
+    def _prep_rev_numeric_operation(self, msg: str, other):
+        return self._prep_numeric_operation(msg, other)
+
     def __add__(self, other):
         return Expr(self.expr[0] + self._prep_numeric_operation('add to', other))
 
-- 
2.43.0


From f5559e5c1a2f003a5ee092a029e5cf4ebd9a2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 26/77] fix: floor division by one rounds down, also of an
 identifier

---
 src/mccode_antlr/common/expression.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 11c7a1f..50eed7e 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -949,10 +949,6 @@ class Value:
         pdt = self.data_type // other.data_type
         if self.is_zero:
             return Value(0, DataType.int)
-        if other.is_value(1):
-            return Value.int(round(self.value))
-        if other.is_value(-1):
-            return -Value.int(round(self.value))
         if other.is_zero:
             raise RuntimeError('Division by zero!')
         if other.is_op or self.is_id or other.is_id:
-- 
2.43.0


From be23915c4cbf34ca2a33af6f11c83fe718b57f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 27/77] fix: an initializer list keeps its identifiers and
 operations, and is printed as one

---
 src/mccode_antlr/common/expression.py        | 19 +++++++++++++++++--
 src/mccode_antlr/common/visitor.py           |  4 +++-
 src/mccode_antlr/translators/c_initialise.py |  3 ++-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 50eed7e..8c806c9 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -750,9 +750,14 @@ class Value:
     def special_str(self, prefix=None):
         if prefix is None:
             prefix = "_instrument_var._parameters."
-        return f'{prefix}{self.value}' if self.is_parameter else f'{self.value}'
+        if self._entries:
+            entries = [f'{x:prefix:{prefix}}' if isinstance(x, (Value, Op)) else str(x) for x in self.value]
+            return '{' + ', '.join(entries) + '}'
+        return f'{prefix}{self.value}' if self.is_parameter else self._str_repr_()
 
     def _str_repr_(self):
+        if isinstance(self.value, list):
+            return '{' + ', '.join(str(x) for x in self.value) + '}'
         return str(self.value)
 
     def __str__(self):
@@ -1034,10 +1039,18 @@ class Value:
             if isinstance(result, Expr) and result.is_singular:
                 return result.expr[0]
             return result
+        if self._entries:
+            values = [x.evaluate(known) if isinstance(x, (Value, Op)) else x for x in self.value]
+            return Value(values, self.data_type, self.object_type, self.shape_type)
         return self
 
+    @property
+    def _entries(self):
+        """The identifiers and operations of an initializer list"""
+        return [x for x in self.value if isinstance(x, (Value, Op))] if isinstance(self.value, list) else []
+
     def depends_on(self, name: str):
-        return not self.is_constant and self.value == name
+        return any(x.depends_on(name) for x in self._entries) or (not self.is_constant and self.value == name)
 
     def copy(self):
         return Value(self.value, self.data_type, self.object_type, self.shape_type)
@@ -1053,6 +1066,8 @@ class Value:
         return self.value == value
 
     def verify_parameters(self, instrument_parameter_names: list[str]):
+        for x in self._entries:
+            x.verify_parameters(instrument_parameter_names)
         if self.is_id and self.value in instrument_parameter_names:
             self._object = ObjectType.parameter
 
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 124dcd8..3ee07f8 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -84,7 +84,9 @@ def visitExpressionBinaryRightShift(obj, ctx):
 
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
-    values = [obj.visit(x).expr[0].value for x in ctx.expr()]
+    entries = [obj.visit(x).expr[0] for x in ctx.expr()]
+    # identifiers and operations are kept as such, since their final form depends on where they are used
+    values = [x.value if isinstance(x, Value) and x.is_constant else x for x in entries]
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionUnaryLogic(obj, ctx):
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index f167007..4d948dc 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -101,6 +101,7 @@ def cogen_comp_init_position(index, comp, last, instr):
 
 def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     from ..common import Expr
+    from ..common.expression import Op, Value
     from ..common.utilities import escape_str_for_c
 
     def parameter_line(default):
@@ -136,7 +137,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                 c_type = par.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
-                    pl.append(f'  {fullname}[{i}] = {v};')
+                    pl.append(f'  {fullname}[{i}] = {Expr(v):p};' if isinstance(v, (Value, Op)) else f'  {fullname}[{i}] = {v};')
             elif p.value.is_id:
                 pl.append(f'  {fullname} = {value};')
             else:
-- 
2.43.0


From 8685bc29033d35ffb3064f83acb514e3cbb5cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 28/77] fix: a vector parameter set to NULL is a null pointer

---
 src/mccode_antlr/instr/visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e9d16f0..506f92c 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 from ..grammar import McInstrParser, McInstrVisitor
-from ..common import InstrumentParameter, MetaData, Expr, Mode
+from ..common import InstrumentParameter, MetaData, Expr, Mode, Value
 from ..common.visitor import add_common_visitors
 from .instr import Instr
 from .instance import Instance
@@ -196,6 +196,8 @@ class InstrVisitor(McInstrVisitor):
         default = self.current_comp.get_parameter(name)
         if default is None:
             raise RuntimeError(f'{name} is not a known DEFINITION or SETTING parameter for {self.current_comp.name}')
+        if default.value.is_vector:
+            value = Expr(Value('NULL', data_type=default.value.data_type, shape_type=default.value.shape_type))
         if DataType.undefined == value.data_type:
             value.data_type = default.value.data_type
         return name, value
-- 
2.43.0


From 8a21f9804b4fff880308a6e1f9cf1f5fed36e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 29/77] fix: an operation that reduces to one operand gives the
 operand itself

---
 src/mccode_antlr/common/expression.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 8c806c9..fb445e9 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -205,6 +205,11 @@ def _binding(x):
     return _BINDING.get(x.op, _TIGHTEST)
 
 
+def _remaining(s: list):
+    """What is left of an operation which reduces to one of its operands, avoiding an array unless it is one"""
+    return s[0] if len(s) == 1 else Expr(s)
+
+
 def _operand(f, s: list, least: int, signed=True):
     """Combine operands, enclosing those which bind less tightly than required, or have a sign when not permitted"""
     def one(x):
@@ -386,9 +391,9 @@ class TrinaryOp(Op):
         f, s, t = [[x.simplify() for x in y] for y in (self.first, self.second, self.third)]
         if self.op == '__trinary__' and len(f) == 1:
             if f[0].is_value(True) and not f[0].is_value(False):
-                return Expr(s)
+                return _remaining(s)
             if f[0].is_value(False) and not f[0].is_value(True):
-                return Expr(t)
+                return _remaining(t)
         return TrinaryOp(self.op, f, s, t)
 
     def evaluate(self, known: dict):
@@ -536,12 +541,12 @@ class BinaryOp(Op):
         left = [x.simplify() for x in self.left]
         right = [x.simplify() for x in self.right]
         if len(left) == 1 and ((left[0].is_zero and self.op == '+') or (left[0].is_value(1) and self.op == '*')):
-            return Expr(right)
+            return _remaining(right)
         if len(right) == 1 and (
                 (right[0].is_zero and any(x == self.op for x in '+-')) or
                 (right[0].is_value(1) and any(x == self.op for x in '*/'))
         ):
-            return Expr(left)
+            return _remaining(left)
         if len(left) == 1 and len(right) == 1 and left[0].is_constant and right[0].is_constant\
                 and self.op in ('+', '-', '*', '/'):
             if self.op == '+':
-- 
2.43.0


From 4da893fb27cf689619f9325548fdaebb7ff7a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 30/77] fix: a copy of an expression, parameter, C block or
 metadata shares nothing that can change

---
 src/mccode_antlr/common/block.py      |  2 +-
 src/mccode_antlr/common/expression.py | 11 +++++++----
 src/mccode_antlr/common/metadata.py   |  5 ++++-
 src/mccode_antlr/common/parameters.py |  3 +++
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/common/block.py b/src/mccode_antlr/common/block.py
index 61a3dfe..a00c2d1 100644
--- a/src/mccode_antlr/common/block.py
+++ b/src/mccode_antlr/common/block.py
@@ -40,7 +40,7 @@ class RawC:
         return escape_str_for_c(self.filename), self.line
 
     def copy(self):
-        return RawC(self.filename, self.line, self.source)
+        return RawC(self.filename, self.line, self.source, self.translated)
 
     def __contains__(self, value):
         return value in self.source
diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index fb445e9..a5c8766 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -404,7 +404,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, self.first, self.second, self.third)
+        return TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -568,7 +568,7 @@ class BinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
 
     def copy(self):
-        return BinaryOp(self.op, self.left.copy(), self.right.copy())
+        return BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right])
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -674,7 +674,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, self.value.copy())
+        return UnaryOp(self.op, [x.copy() for x in self.value])
 
     def __contains__(self, value):
         # value is a list
@@ -1058,7 +1058,10 @@ class Value:
         return any(x.depends_on(name) for x in self._entries) or (not self.is_constant and self.value == name)
 
     def copy(self):
-        return Value(self.value, self.data_type, self.object_type, self.shape_type)
+        value = self.value
+        if isinstance(value, list):
+            value = [x.copy() if isinstance(x, (Value, Op)) else x for x in value]
+        return Value(value, self.data_type, self.object_type, self.shape_type)
 
     def __contains__(self, value):
         if self.is_id and isinstance(value, (str, Value)):
diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 81789bd..06649cc 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -27,6 +27,9 @@ class DataSource:
     def type_name(self):
         return self._type.name
 
+    def copy(self):
+        return DataSource(self._type, self._name)
+
     @staticmethod
     def from_type_name_and_name(type_name: str, name: str):
         return DataSource(DataSource.Type[type_name], name)
@@ -74,4 +77,4 @@ class MetaData:
         return ','.join(c(x) for x in (self.source.name, self.name, self.mimetype, self.value))
 
     def copy(self):
-        return MetaData(self.source, self.name, self.mimetype, self.value)
\ No newline at end of file
+        return MetaData(self.source.copy(), self.name, self.mimetype, self.value)
diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 0c9f9c6..bf9f869 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -66,6 +66,9 @@ class ComponentParameter:
     def to_file(self, output, wrapper):
         print(wrapper.parameter(self.name) + '=' + wrapper.value(self.value), file=output)
 
+    def copy(self):
+        return ComponentParameter(self.name, self.value.copy())
+
     def compatible_value(self, value):
         return self.value.compatible(value, id_ok=True)
 
-- 
2.43.0


From ba87950fd502c918ee1f3ac4ba2312c2bf5ab6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 31/77] fix: a copied component instance keeps its mode and has
 jumps and expressions of its own

---
 src/mccode_antlr/instr/instance.py | 20 ++++++++++++--------
 src/mccode_antlr/instr/jump.py     |  3 +++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e63b358..c630f0f 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -89,11 +89,11 @@ class Instance:
         # from copy import deepcopy
         # copy each of: parameters, extend, group, jump, when, metadata
         return cls(name, ref.type, at, rotate,
-                   parameters=tuple([par for par in ref.parameters]),
-                   when=ref.when, group=ref.group,
-                   extend=tuple([ext for ext in ref.extend]),
-                   jump=tuple([jmp for jmp in ref.jump]),
-                   metadata=tuple([md for md in ref.metadata]),
+                   parameters=tuple([par.copy() for par in ref.parameters]),
+                   when=None if ref.when is None else ref.when.copy(), group=ref.group,
+                   extend=tuple([ext.copy() for ext in ref.extend]),
+                   jump=tuple([jmp.copy() for jmp in ref.jump]),
+                   metadata=tuple([md.copy() for md in ref.metadata]),
                    mode=ref.mode)
 
     def __post_init__(self):
@@ -227,9 +227,13 @@ class Instance:
 
     def copy(self):
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
-                        orientation=self.orientation, parameters=self.parameters,
-                        removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=self.jump, metadata=self.metadata)
+                        orientation=self.orientation, parameters=tuple([par.copy() for par in self.parameters]),
+                        removable=self.removable, cpu=self.cpu,
+                        split=None if self.split is None else self.split.copy(),
+                        when=None if self.when is None else self.when.copy(),
+                        group=self.group, extend=tuple([ext.copy() for ext in self.extend]),
+                        jump=tuple([jmp.copy() for jmp in self.jump]),
+                        metadata=tuple([md.copy() for md in self.metadata]), mode=self.mode)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 261b35a..2020eec 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -21,5 +21,8 @@ class Jump:
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
+    def copy(self):
+        return Jump(self.target, self.relative_target, self.iterate, self.condition.copy(), self.absolute_target)
+
     def __contains__(self, value):
         return value in self.condition
-- 
2.43.0


From 5edb97371abfa486bf6b5b8854b426fd5221eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 32/77] fix: jump targets are found for the instrument being
 translated

---
 src/mccode_antlr/translators/target.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index d2d4f1c..2cdf8d2 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -218,14 +218,10 @@ class TargetVisitor:
 
     def set_jump_absolute_targets(self):
         for index, jump in [(i, j) for i, c in enumerate(self.source.components) for j in c.jump]:
-            # jump is a dataclass with 'target', 'index', 'iterate', 'condition', and 'actual_target_index'
-            if jump.absolute_target > -1:
-                # Somewhere/something already set the actual target index -- we don't have a choice but to trust it
-                continue
+            # A target set before could be of another instrument, e.g., the one this one is a copy of part of
             if jump.relative_target == 0 and jump.target.lower() != 'myself':
                 # the target is another named component:
                 jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
-                jump.relative_target = jump.absolute_target - index
             else:
                 jump.absolute_target = index + jump.relative_target
 
-- 
2.43.0


From d002e92f59754e09965843cfc67edaaf6130f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 33/77] fix: a copied or split instrument has groups and
 references among its own components

---
 src/mccode_antlr/instr/instr.py        | 31 ++++++++++++++------------
 src/mccode_antlr/translators/target.py |  1 +
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index cd99032..cf478df 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -198,6 +198,7 @@ class Instr:
         self.metadata += (m,)
 
     def determine_groups(self):
+        self.groups = {}
         for id, inst in enumerate(self.components):
             if inst.group:
                 if inst.group not in self.groups:
@@ -306,9 +307,8 @@ class Instr:
 
     def copy(self, first=0, last=-1):
         """Return a copy of this instrument, optionally with only a subset of components"""
-        from copy import deepcopy
         copy = Instr(self.name, self.source)
-        copy.parameters = tuple(x for x in self.parameters)
+        copy.parameters = tuple(x.copy() for x in self.parameters)
         copy.metadata = tuple(x.copy() for x in self.metadata)
         if last < 0:
             last += 1 + len(self.components)
@@ -319,9 +319,18 @@ class Instr:
         copy.initialize = tuple(x.copy() for x in self.initialize)
         copy.save = tuple(x.copy() for x in self.save)
         copy.final = tuple(x.copy() for x in self.final)
-        copy.groups = {k: v.copy() for k, v in self.groups.items()}
         copy.flags = tuple(x for x in self.flags)
         copy.registries = tuple(x for x in self.registries)
+        # references to components which are part of the copy should be to their copies
+        for instance in copy.components:
+            at, at_ref = instance.at_relative
+            rotate, rotate_ref = instance.rotate_relative
+            if at_ref is not None and copy.has_component_named(at_ref.name):
+                instance.at_relative = at, copy.get_component(at_ref.name)
+            if rotate_ref is not None and copy.has_component_named(rotate_ref.name):
+                instance.rotate_relative = rotate, copy.get_component(rotate_ref.name)
+        # the position of each group member depends on which components are part of the copy
+        copy.determine_groups()
         return copy
 
     def split(self, at, remove_unused_parameters=False):
@@ -358,20 +367,14 @@ class Instr:
 
         second = self.copy(first=index)
         second.name = self.name + '_second'
-        # remove any dangling component references and re-reference into the new instrument's components:
+        # remove any dangling component references
         for instance in second.components:
             at_rel = instance.at_relative[1]
             rot_rel = instance.rotate_relative[1]
-            if isinstance(at_rel, Instance):
-                if second.has_component_named(at_rel.name):
-                    instance.at_relative = instance.at_relative[0], second.get_component(at_rel.name)
-                else:
-                    instance.at_relative = instance.orientation.position(), None
-            if isinstance(rot_rel, Instance):
-                if second.has_component_named(rot_rel.name):
-                    instance.rotate_relative = instance.rotate_relative[0], second.get_component(rot_rel.name)
-                else:
-                    instance.rotate_relative = instance.orientation.angles(), None
+            if isinstance(at_rel, Instance) and not second.has_component_named(at_rel.name):
+                instance.at_relative = instance.orientation.position(), None
+            if isinstance(rot_rel, Instance) and not second.has_component_named(rot_rel.name):
+                instance.rotate_relative = instance.orientation.angles(), None
         if second.check_instrument_parameters(remove=remove_unused_parameters) and not remove_unused_parameters:
             logger.info(f'Instrument {second.name} has unused instrument parameters')
 
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 2cdf8d2..1c3929c 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -29,6 +29,7 @@ class TargetVisitor:
         self.ok_to_skip = None
         #
         self.source.verify_instance_parameters()
+        self.source.determine_groups()
         self.__post_init__()
 
     def __init_subclass__(cls, **kwargs):
-- 
2.43.0


From 9d1370182db73c3ffd266c27a99720fca2ef082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 34/77] fix: a parameter used only in user variables is used,
 and one without orientations can be checked

---
 src/mccode_antlr/instr/instance.py | 4 +++-
 src/mccode_antlr/instr/instr.py    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index c630f0f..af106cd 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -238,7 +238,9 @@ class Instance:
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
             return True
-        if name in self.at_relative[0] or name in self.rotate_relative[0] or name in self.orientation:
+        if name in self.at_relative[0] or name in self.rotate_relative[0]:
+            return True
+        if self.orientation is not None and name in self.orientation:
             return True
         if name in (self.split or []) or name in (self.when or []):
             return True
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index cf478df..ab2a9bd 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -463,7 +463,7 @@ class Instr:
         for instance in self.components:
             if instance.parameter_used(name):
                 return True
-        for section in (self.declare, self.initialize, self.save, self.final):
+        for section in (self.user, self.declare, self.initialize, self.save, self.final):
             for block in section:
                 # A more complex check would see if the use itself leads to a parameter being used, but
                 # that would be language dependent and probably not worth the effort.
-- 
2.43.0


From d36dff2f72584f3435238a5cccc672e6367e21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 35/77] fix: instrument parameters are recognised in every
 expression of a component instance

---
 src/mccode_antlr/instr/instance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index af106cd..bfcc9db 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -154,11 +154,15 @@ class Instance:
         self.parameters += (ComponentParameter(p.name, value), )
 
     def verify_parameters(self, instrument_parameters: tuple[InstrumentParameter, ...]):
-        """Check for instance parameters which are identifiers that match instrument parameter names,
+        """Check for identifiers in any expression of the instance that match instrument parameter names,
         and flag them as parameter objects"""
         instrument_parameter_names = [x.name for x in instrument_parameters]
-        for par in self.parameters:
-            par.value.verify_parameters(instrument_parameter_names)
+        expressions = [par.value for par in self.parameters]
+        expressions.extend(jump.condition for jump in self.jump)
+        expressions.extend((self.split, self.when, *self.at_relative[0], *self.rotate_relative[0]))
+        for expr in expressions:
+            if isinstance(expr, Expr):
+                expr.verify_parameters(instrument_parameter_names)
 
     def get_parameter(self, name: str):
         for par in self.parameters:
-- 
2.43.0


From 02f8e4a317d192ac6303939e17c7a2f0cee032ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 36/77] fix: a reference to a component that does not exist is
 an error

AT/ROTATED/COPY with an unknown name or too large PREVIOUS count logged an error and continued with an absolute reference
---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 506f92c..8f4bc7f 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -264,14 +264,14 @@ class InstrVisitor(McInstrVisitor):
             elif self.destination is not None:
                 return self.destination.last_component(count - instances, removable_ok=True)
             else:
-                logger.error(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
+                raise RuntimeError(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
         name = str(ctx.Identifier())
         if any(inst.name == name for inst in self.state.components):
             return self.state.get_component(name)
         elif self.destination is not None:
             return self.destination.get_component(name)
         else:
-            logger.error(f'Unknown component reference for instance named {name}')
+            raise RuntimeError(f'Unknown component reference for instance named {name}')
 
     def visitCoords(self, ctx: McInstrParser.CoordsContext):
         # FIXME 2023-10-16 previously Coordinate parsing forced all returned Expression objects to be floats
-- 
2.43.0


From 5fef7c1daf406328a595db11321b2ecfd995565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 37/77] fix: the text of an instance keeps REMOVABLE, SPLIT and
 a rotation that is not relative to its position

---
 src/mccode_antlr/instr/instance.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index bfcc9db..aaedab6 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -38,8 +38,12 @@ class Instance:
         return f'Instance({self.name}, {self.type.name})'
 
     def to_file(self, output, wrapper=None, full=True):
+        if self.removable:
+            print(wrapper.line('REMOVABLE', []), file=output, end='')
         if self.cpu:
             print(wrapper.line('CPU', []), file=output, end='')
+        if self.split is not None:
+            print(wrapper.bold('SPLIT') + ' ' + wrapper.escape(str(self.split)) + ' ', file=output, end='')
 
         instance_parameters = wrapper.hide(', '.join(p.to_string(wrapper=wrapper) for p in self.parameters))
         line = wrapper.bold('COMPONENT') + f' {self.name} = {self.type.name}({instance_parameters}) '
@@ -54,8 +58,9 @@ class Instance:
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
-        line += rf('ROTATED', self.rotate_relative) + wrapper.br()
-        print(line, file=output, end='')
+        # If left out, "ROTATED ..." is relative to the reference of "AT ..."
+        line += rf('ROTATED', self.rotate_relative, required=self.at_relative[1] is not None) + wrapper.br()
+        print(line, file=output, end='\n' if full else '')
 
         if not full:
             return  # Skip the rest of the output
-- 
2.43.0


From df66273d4420efb6a0b302b36602df32caf12ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 38/77] fix: the text of a jump to a component keeps the whole
 of its name

---
 src/mccode_antlr/instr/jump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 2020eec..53ecc0c 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -14,7 +14,7 @@ class Jump:
         # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
         # or "{component instance identifier}"
         jump_name = self.target
-        if '_' in jump_name and (jump_name.startswith('PREVIOUS') or jump_name.startswith('NEXT')):
+        if self.relative_target:
             jump_name = jump_name.split('_')[0]
         if abs(self.relative_target) > 1:
             jump_name += f' ({abs(self.relative_target)})'
-- 
2.43.0


From f6b8da93f152b537dd6ecdcd2615c0a11495bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 39/77] fix: the text of an instrument parameter has its unit
 as a string, and none if there is none

---
 src/mccode_antlr/common/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index bf9f869..17ca285 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -19,8 +19,9 @@ class InstrumentParameter:
         elif self.value.data_type == DataType.int:
             line = 'int '
         line = wrapper.datatype(line) + wrapper.parameter(self.name)
-        if self.unit is not None:
-            line += wrapper.unit(self.unit)
+        if self.unit:
+            # the unit is a string literal, which includes its quotes when it was read from one
+            line += wrapper.unit(self.unit if self.unit.startswith('"') else f'"{self.unit}"')
         if self.value.has_value:
             line += "=" + wrapper.value(self.value)
         print(line, file=output)
-- 
2.43.0


From c6a45d5b55282a7e2552a6826ebf390fd61e1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 40/77] fix: the text of metadata has its name as a string

---
 src/mccode_antlr/common/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 06649cc..8f7676b 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -43,7 +43,9 @@ class MetaData:
     value: str
 
     def to_file(self, output, wrapper):
-        print(wrapper.metadata_group('METADATA', self.mimetype, self.name, self.value), file=output)
+        # the name can be any string, not only an identifier
+        name = self.name if self.name.startswith('"') else f'"{self.name}"'
+        print(wrapper.metadata_group('METADATA', self.mimetype, name, self.value), file=output)
 
     @staticmethod
     def partial_from_tokens(source: DataSource, mimetype: str, name: str, value: str):
-- 
2.43.0


From 8c93fc9da115f44dd3171b95a46dcbce8e9d98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 41/77] fix: code and other text of an instrument is escaped in
 its HTML form

---
 src/mccode_antlr/common/textwrap.py | 19 +++++++++----------
 src/mccode_antlr/instr/instance.py  |  7 ++++---
 src/mccode_antlr/instr/instr.py     |  4 ++--
 src/mccode_antlr/instr/jump.py      |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index eee8687..fa88acb 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -239,20 +239,20 @@ class HTMLWrapper(BaseWrapper):
         return '</details>'
 
     def block(self, name: str, content: str) -> str:
-        return '<br>'.join([self.bold(name) + ' %{' + self.hide(f'<pre>{content}</pre><br>') + '%} '])
+        return '<br>'.join([self.bold(name) + ' %{' + self.hide(f'<pre>{self.escape(content)}</pre><br>') + '%} '])
 
     def line(self, name: str, items: list[str], sep: str = ' ') -> str:
         return ''.join(self.wrap(f'<b>{name}</b> {sep.join(items)}')) + '<br>'
 
     def quoted_line(self, name: str, items: list[str], sep: str = ' ') -> str:
-        return ''.join(self.wrap(f'<b>{name}</b> "{sep.join(items)}"')) + '<br>'
+        return ''.join(self.wrap(f'<b>{name}</b> "{self.escape(sep.join(items))}"')) + '<br>'
 
     def lines(self, items: list[str]) -> str:
         return '<br>'.join('<br>'.join(self.wrap(line)) for line in items)
 
-    @staticmethod
-    def metadata_group(name: str, mimetype: str, item: str, value: str) -> str:
-        return f'<b>{name}</b> <code>"{mimetype}"</code>" <var>{item}</var> %{{<pre>{value}</pre>%}}'
+    def metadata_group(self, name: str, mimetype: str, item: str, value: str) -> str:
+        mimetype, item, value = self.escape(mimetype), self.escape(item), self.escape(value)
+        return f'<b>{name}</b> <code>"{mimetype}"</code> <var>{item}</var> %{{<pre>{value}</pre>%}}'
 
     @staticmethod
     def datatype(data_type: str) -> str:
@@ -262,9 +262,8 @@ class HTMLWrapper(BaseWrapper):
     def parameter(parameter: str) -> str:
         return f'<var>{parameter}</var>'
 
-    @staticmethod
-    def unit(unit: str) -> str:
-        return f'/{unit}'
+    def unit(self, unit: str) -> str:
+        return f'/{self.escape(unit)}'
 
     def value(self, value: str) -> str:
         return f'<code>{self.escape(str(value))}</code>'
@@ -297,8 +296,8 @@ class HTMLWrapper(BaseWrapper):
         from html import escape
         return escape(str(content))
 
-    @staticmethod
-    def url(content: str) -> str:
+    def url(self, content: str) -> str:
+        content = self.escape(content)
         return f'<a href="{content}">{content}</a>'
 
     @staticmethod
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index aaedab6..88ea879 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -54,7 +54,7 @@ class Instance:
         def rf(which, x, required=False):
             absolute = wrapper.bold('ABSOLUTE')
             relative = wrapper.bold('RELATIVE')
-            return _triplet_ref_str(wrapper.bold(which), x, absolute, relative, required)
+            return _triplet_ref_str(wrapper.bold(which), x, absolute, relative, required, wrapper.escape)
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
@@ -262,10 +262,11 @@ class Instance:
         return False
 
 
-def _triplet_ref_str(which, tr: Union[VectorReference, AnglesReference], absolute, relative, required=False):
+def _triplet_ref_str(which, tr: Union[VectorReference, AnglesReference], absolute, relative, required=False,
+                     escape=str):
     pos, ref = tr
     if isinstance(pos, tuple):
         pos = Vector(*pos)
     if pos.is_null() and ref is None and not required:
         return ''
-    return f'{which} {pos} {absolute if ref is None else f"{relative} {ref.name}"}'
+    return f'{which} {escape(str(pos))} {absolute if ref is None else f"{relative} {ref.name}"}'
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index ab2a9bd..1cbf0af 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -41,8 +41,8 @@ class Instr:
             wrapper = TextWrapper(width=120)
         print(wrapper.start_block_comment(f'Instrument {self.name}'), file=output)
         print(wrapper.line('Instrument:', [self.name or 'None']), file=output)
-        print(wrapper.line('Source:', [self.source or 'None']), file=output)
-        print(wrapper.line('Contains:', [f'"%include {include}"' for include in self.included]), file=output)
+        print(wrapper.line('Source:', [wrapper.escape(self.source or 'None')]), file=output)
+        print(wrapper.line('Contains:', [wrapper.escape(f'"%include {include}"') for include in self.included]), file=output)
         print(wrapper.line('Registries:', [registry.name for registry in self.registries]), file=output)
         for registry in self.registries:
             registry.to_file(output=output, wrapper=wrapper)
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 53ecc0c..a8245b1 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -19,7 +19,7 @@ class Jump:
         if abs(self.relative_target) > 1:
             jump_name += f' ({abs(self.relative_target)})'
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
-        print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
+        print(wrapper.line('JUMP', [jump_name, when_iter, wrapper.escape(str(self.condition))]), file=output)
 
     def copy(self):
         return Jump(self.target, self.relative_target, self.iterate, self.condition.copy(), self.absolute_target)
-- 
2.43.0


From 4176963021374c1020f716a6a381ba5edef5570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 42/77] fix: registry names are escaped in the HTML form of an
 instrument

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 1cbf0af..b2af3df 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -43,7 +43,7 @@ class Instr:
         print(wrapper.line('Instrument:', [self.name or 'None']), file=output)
         print(wrapper.line('Source:', [wrapper.escape(self.source or 'None')]), file=output)
         print(wrapper.line('Contains:', [wrapper.escape(f'"%include {include}"') for include in self.included]), file=output)
-        print(wrapper.line('Registries:', [registry.name for registry in self.registries]), file=output)
+        print(wrapper.line('Registries:', [wrapper.escape(registry.name) for registry in self.registries]), file=output)
         for registry in self.registries:
             registry.to_file(output=output, wrapper=wrapper)
         print(wrapper.end_block_comment(), file=output)
-- 
2.43.0


From 078a468f0c2d2352852889802c06269df50de4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 43/77] fix: a registry only knows a file by its whole name,
 not by the end of it

---
 src/mccode_antlr/reader/registry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8ff0fc5..5094278 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -96,6 +96,11 @@ def _name_plus_suffix(name: str, suffix: str = None):
     return path.as_posix()
 
 
+def _is_named(path: str, name: str):
+    """Is this (posix) path to a file of this name, which can start with some of its folders?"""
+    return path == name or path.endswith('/' + name)
+
+
 def find_registry_file(name: str):
     """Find a registry file in the mccode_antlr package"""
     from importlib.resources import files
@@ -137,10 +142,10 @@ class RemoteRegistry(Registry):
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
         # the files *in* the registry are already posix paths, so that makes life easier
-        if any(x.endswith(compare) for x in self.pooch.registry_files):
+        if any(_is_named(x, compare) for x in self.pooch.registry_files):
             return True
         # fall back to matching without the extension:
-        if any(Path(x).with_suffix('').as_posix().endswith(compare) for x in self.pooch.registry_files):
+        if any(_is_named(Path(x).with_suffix('').as_posix(), compare) for x in self.pooch.registry_files):
             return True
         # Or matching *any* file that contains name
         return False if strict else any(name in x for x in self.pooch.registry_files)
@@ -157,7 +162,7 @@ class RemoteRegistry(Registry):
                 return registry_file
         # second step, exact match to filename:
         for registry_file in self.pooch.registry_files:
-            if Path(registry_file).parts[-1] == compare:
+            if _is_named(registry_file, compare):
                 return registry_file
         # fall back to matching without the extension:
         if not exact:
-- 
2.43.0


From 3cc3c648e69fd5634eabacf7e6e43f324f138357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 44/77] fix: a file in a subfolder of a local registry is found
 before a folder of the bare name

---
 src/mccode_antlr/reader/registry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 5094278..96fd94f 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -317,15 +317,15 @@ class LocalRegistry(Registry):
         is_compare = list(self._exact_file_iterator(compare))
         if len(is_compare) == 1:
             return is_compare[0]
+        if not exact:
+            ends_with_compare = list(self._file_iterator(compare))
+            if len(ends_with_compare) == 1:
+                return ends_with_compare[0]
         # Complete match if name happens to be missing the extension
         is_name = list(self._exact_file_iterator(name))
         if len(is_name) == 1:
             return is_name[0]
         if not exact:
-            from loguru import logger
-            ends_with_compare = list(self._file_iterator(compare))
-            if len(ends_with_compare) == 1:
-                return ends_with_compare[0]
             # Complete match if name happens to be missing the extension
             ends_with_name = list(self._file_iterator(name))
             if len(ends_with_name) == 1:
-- 
2.43.0


From 0f02b12f8d8176acb436b0206ffafcb2e184b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 45/77] fix: the files of a local registry are its files, not
 its folders

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 96fd94f..cfbc3ca 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -345,7 +345,7 @@ class LocalRegistry(Registry):
         return self.root.joinpath(self.fullname(name, ext, exact))
 
     def filenames(self) -> list[str]:
-        return [str(x) for x in self.root.glob('**')]
+        return [str(x) for x in self.root.glob('**/*') if x.is_file()]
 
     def __eq__(self, other):
         if not isinstance(other, Registry):
-- 
2.43.0


From e154982dc9fa3b44d7081171b5f4253a1280d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 46/77] fix: a remote registry can say if a file is available

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index cfbc3ca..3c82379 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -180,7 +180,7 @@ class RemoteRegistry(Registry):
         return matches[0]
 
     def is_available(self, name: str, ext: str = None, exact: bool = True):
-        return self.pooch.registry_files(self.fullname(name, ext, exact))
+        return self.pooch.is_available(self.fullname(name, ext, exact))
 
     def path(self, name: str, ext: str = None, exact: bool = True) -> Path:
         return Path(self.pooch.fetch(self.fullname(name, ext, exact)))
-- 
2.43.0


From 75831cc3f92d0369f4dfe502c5341ea1dc05c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 47/77] fix: an in-memory registry answers as the other
 registries do

---
 src/mccode_antlr/reader/registry.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 3c82379..8de26e4 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -391,6 +391,15 @@ class InMemoryRegistry(Registry):
             return True
         return False
 
+    def unique(self, name: str):
+        return sum(name in x for x in self.components) == 1
+
+    def is_available(self, name: str, ext: str | None = None):
+        return self.known(name, ext)
+
+    def path(self, name: str, ext: str | None = None) -> Path:
+        return Path(self.root, self.fullname(name, ext))
+
     def contents(self, name: str, ext: str | None = None):
         full_name = self.fullname(name, ext=ext)
         if full_name is not None and full_name in self.components:
-- 
2.43.0


From a9083af45946d5a99e936917035aa70fec2cecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 48/77] fix: an instrument file is found by its whole name

---
 src/mccode_antlr/reader/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index a3e5975..8222223 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -155,8 +155,8 @@ class Reader:
         if path.exists() and path.is_file():
             source = path.read_text()
         else:
-            path = self.locate(path.name)  # include the .instr for the search
-            source = self.contents(path.name)
+            path = self.locate(path.name, strict=True)  # include the .instr for the search
+            source = self.contents(path.name, strict=True)
         filename = str(path.resolve())
 
         stream = InputStream(source)
-- 
2.43.0


From 6ab326719fb95b1e776083f31ebc700d8f995253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 49/77] fix: a specification of two parts that is no folder
 specifies no registry instead of failing

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8de26e4..73fb7de 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -464,7 +464,7 @@ def registry_from_specification(spec: str):
     if not simple_url_validator(p2, file_ok=True):
         return None
 
-    if Path(p3).exists() and Path(p3).is_file():
+    if p3 is not None and Path(p3).exists() and Path(p3).is_file():
         return ModuleRemoteRegistry(p1, p2, Path(p3).resolve().as_posix())
 
     if p4 is not None:
-- 
2.43.0


From a04412a94afd1bf6d6d4a687d981a9cfb017dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 50/77] fix: an included file is found by its whole name

---
 src/mccode_antlr/translators/target.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 1c3929c..f71cd1a 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -58,12 +58,12 @@ class TargetVisitor:
         if self.registries is None:
             return False
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return any([reg.known(name) for reg in registries])
+        return any([reg.known(name, strict=True) for reg in registries])
 
     def locate(self, name: str, which: str = None):
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
         for reg in registries:
-            if reg.known(name):
+            if reg.known(name, strict=True):
                 return reg.path(name)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
-- 
2.43.0


From 6c92e0c6083754837373a6232d035f7458947a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 51/77] fix: each point of a scan is run with the values of
 that point

---
 src/mccode_antlr/run/range.py  | 2 +-
 src/mccode_antlr/run/runner.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index b56f36b..cab8101 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -168,7 +168,7 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
             if isinstance(v, Singular):
                 parameters[k] = Singular(v.value, 1)
 
-    names = [x.lower() for x in parameters.keys()]
+    names = list(parameters.keys())
     values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
     if not len(values):
         return 0, names, []
diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0a09363..398220d 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -177,14 +177,14 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(r_args, parameters)
+            pars = mccode_runtime_parameters(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        print(parameters)
-        pars = mccode_runtime_parameters(args, parameters)
+        # the values at the only point, which is that without parameters if there are none
+        pars = mccode_runtime_parameters(args, dict(zip(names, next(iter(scan), ()))))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From 748f1bb14c5ef4528e6a3a4287be32fb3011e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 52/77] fix: a grid scan leaves the parameters it is given as
 they are

---
 src/mccode_antlr/run/range.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index cab8101..4ac51af 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -164,9 +164,7 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     :parameter grid: Controls how the parameters are iterated; True implies a grid scan, False implies a linear scan.
     """
     if grid:
-        for k, v in parameters.items():
-            if isinstance(v, Singular):
-                parameters[k] = Singular(v.value, 1)
+        parameters = {k: Singular(v.value, 1) if isinstance(v, Singular) else v for k, v in parameters.items()}
 
     names = list(parameters.keys())
     values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
-- 
2.43.0


From bb63acee3e8551945874674225f5291a861b5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 53/77] fix: a list of one value is that value at each point of
 a linear scan

---
 src/mccode_antlr/run/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 4ac51af..e1422a8 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -185,7 +185,7 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
                 par = 'parameters' if len(oth) > 1 else 'parameter'
                 have = 'have' if len(oth) > 1 else 'has'
                 raise ValueError(f'Parameter {names[i]} has {len(v)} values, but {par} {", ".join(oth)} {have} {n_max}')
-        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0] if isinstance(v, MRange) else v.value, n_max) for v in values])
+        return n_max, names, zip(*[v if len(v) > 1 else Singular(v.value if isinstance(v, Singular) else v[0], n_max) for v in values])
 
 
 def _MRange_or_Singular(s: str):
-- 
2.43.0


From c40f89005164f9848749ae7f3603164132800aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 54/77] fix: a text is one value of a scan and not its letters

---
 src/mccode_antlr/run/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index e1422a8..51b9ac3 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -167,7 +167,7 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
         parameters = {k: Singular(v.value, 1) if isinstance(v, Singular) else v for k, v in parameters.items()}
 
     names = list(parameters.keys())
-    values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
+    values = [x if hasattr(x, '__iter__') and not isinstance(x, str) else [x] for x in parameters.values()]
     if not len(values):
         return 0, names, []
     elif grid:
-- 
2.43.0


From 0855a4358f484baf7d6548a5dbfb4e65eb5f6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 55/77] fix: a range has as many values as its length, and none
 if its step leads away from its end

---
 src/mccode_antlr/run/range.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 51b9ac3..3cf699f 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -29,14 +29,7 @@ class MRange:
         return self.stop
 
     def __iter__(self):
-        def range_gen(start, stop, step):
-            v = start
-            i = 0
-            while (step > 0 and v + step <= stop) or (step < 0 and v + step >= stop):
-                v = i * step + start
-                i += 1
-                yield v
-        return range_gen(self.start, self.stop, self.step)
+        return (self[i] for i in range(len(self)))
 
     def __getitem__(self, index: int):
         if index < 0 or index >= len(self):
@@ -50,7 +43,8 @@ class MRange:
         return f'MStyleRange({self})'
 
     def __len__(self):
-        return int((self.stop - self.start) / self.step) + 1
+        from math import floor
+        return max(0, floor((self.stop - self.start) / self.step) + 1)
 
     @classmethod
     def from_str(cls, string):
-- 
2.43.0


From 4b678446e40b3bd517dfe08604d03cb4a2bb4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 56/77] fix: the output directory can be given on the command
 line

---
 src/mccode_antlr/run/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 398220d..300f294 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -168,6 +168,7 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     if directory is None:
         from datetime import datetime
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
+    directory = Path(directory)
 
     # if there is only one point, we don't need to scan
     if n_pts > 1:
-- 
2.43.0


From 4e15e660f6b3b79b46c33052cdeb70f5afbf5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 57/77] fix: an instrument that is compiled already can be run

---
 src/mccode_antlr/run/runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 300f294..f5b013a 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -197,6 +197,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
                ):
     from os import access, R_OK
     from datetime import datetime
+    from mccode_antlr.compiler.c import CBinaryTarget
     if not isinstance(directory, Path):
         directory = Path(directory)
     if binary_name is not None:
@@ -208,7 +209,9 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
         raise ValueError(f"{binary_path} exists but is not an executable")
 
     target = {'mpi': parallel, 'acc': gpu, 'count': process_count, 'nexus': False}
-    if not binary_path.exists():
+    if binary_path.exists():
+        target = CBinaryTarget(**target)
+    else:
         config = {'enable_trace': trace, 'embed_instrument_file': source, 'verbose': verbose}
         binary_path, target = mccode_compile(instrument, binary_path, generator, target=target, config=config)
 
@@ -232,6 +235,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     from mccode_antlr.reader import Reader
     from mccode_antlr.reader import LocalRegistry
     from os import X_OK, R_OK, access
+    from mccode_antlr.compiler.c import CBinaryTarget
 
     args, parameters = parse_mccode_run_script(flavor)
     filename = args.filename if isinstance(args.filename, Path) else next(iter(args.filename))
@@ -262,6 +266,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     # check if the filename is actually a compiled instrument already:
     if args.output_file is None and filename.exists() and access(filename, X_OK):
         binary = filename
+        target = CBinaryTarget(**target)
         name = filename.stem
     elif not filename.exists() or not access(filename, R_OK):
         raise RuntimeError(f'{filename} does not exist or is not readable')
-- 
2.43.0


From c596de8bb777b1bc325b5b36f96c9eac1c2da8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 58/77] fix: the process count of the command line is a number

---
 src/mccode_antlr/run/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index f5b013a..d159ea1 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -104,7 +104,7 @@ def mccode_run_script_parser(prog: str):
        help='Do not run any simulations, just print the commands')
     aa('--parallel', action='store_true', default=False, help='Use MPI multi-process parallelism')
     aa('--gpu', action='store_true', default=False, help='Use GPU OpenACC parallelism')
-    aa('--process-count', nargs=1, type=int, default=0, help='MPI process count, 0 == System Default')
+    aa('--process-count', type=int, default=0, help='MPI process count, 0 == System Default')
 
     return parser
 
-- 
2.43.0


From 5faf531da23e8a14df254cc26def7ce0ad7da1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 59/77] fix: mcstas_run and mcxtrace_run hand on what
 mccode_run takes

---
 src/mccode_antlr/run/runner.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index d159ea1..0841987 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -313,12 +313,10 @@ def mcxtrace_cmd():
 
 
 def mcstas_run(instrument, directory):
-    from mccode_antlr.reader import MCSTAS_REGISTRY
     from mccode_antlr.translators.target import MCSTAS_GENERATOR
-    mccode_run(instrument, directory, MCSTAS_REGISTRY, MCSTAS_GENERATOR)
+    mccode_run(instrument, MCSTAS_GENERATOR, {}, directory)
 
 
 def mcxtrace_run(instrument, directory):
-    from mccode_antlr.reader import MCXTRACE_REGISTRY
     from mccode_antlr.translators.target import MCXTRACE_GENERATOR
-    mccode_run(instrument,  directory, MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
+    mccode_run(instrument, MCXTRACE_GENERATOR, {}, directory)
-- 
2.43.0


From ff46bc745401d47954fe06fab5fc67793e9dcd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 60/77] fix: updating a target keeps that it needs NeXus

---
 src/mccode_antlr/compiler/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index c84b0a0..5f7b87e 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -33,6 +33,7 @@ class CBinaryTarget:
         self.count = d.get('count', self.count)
         d_mpi = d.get('mpi', self.type & CBinaryTarget.Type.mpi)
         d_acc = d.get('acc', self.type & CBinaryTarget.Type.acc)
+        d_nexus = d.get('nexus', self.type & CBinaryTarget.Type.nexus)
         if d_mpi and d_acc:
             self.type = CBinaryTarget.Type.acc | CBinaryTarget.Type.mpi
         elif d_mpi:
@@ -41,7 +42,7 @@ class CBinaryTarget:
             self.type = CBinaryTarget.Type.acc
         else:
             self.type = CBinaryTarget.Type.single
-        if d.get('nexus', self.type & CBinaryTarget.Type.nexus):
+        if d_nexus:
             self.type |= CBinaryTarget.Type.nexus
 
     @property
-- 
2.43.0


From 2592da4b54359250d7152bfb7dac3af93c2ccd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 61/77] fix: a range whose step leads away from its end is an
 error

---
 src/mccode_antlr/run/range.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 3cf699f..444585c 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -16,6 +16,8 @@ class MRange:
                              f'`list(MRange)` will be empty! Use a `Singular({self.start}, 1)` range instead.')
         if self.step == 0:
             raise ZeroDivisionError('MRange step cannot be zero')
+        if (self.stop > self.start) != (self.step > 0):
+            raise ValueError(f'MRange step {self.step} does not lead from {self.start} to {self.stop}')
 
     def __eq__(self, other):
         return self.start == other.start and self.stop == other.stop and self.step == other.step
-- 
2.43.0


From c13990f2e184bee9a4b1d2054fcf75e0e5ac506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 62/77] fix: an output directory can have a space in its name

---
 src/mccode_antlr/compiler/c.py | 4 ++--
 src/mccode_antlr/run/runner.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index 5f7b87e..e09eac0 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -277,7 +277,7 @@ def compile_instrument(
     return compile_c_instrument(instrument, target, output, replace, dump_source, **kwargs)
 
 
-def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, capture=False, dry_run: bool = False):
+def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: Union[str, list[str]], capture=False, dry_run: bool = False):
     from subprocess import run, CalledProcessError
     from platform import system
     from mccode_antlr.config import config
@@ -311,7 +311,7 @@ def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, c
         raise RuntimeError(f'Can not execute {binary} since it does not exist.')
 
     # In normal operation, the binary is provided with options
-    command.extend([str(binary), *options.split()])
+    command.extend([str(binary), *(options.split() if isinstance(options, str) else options)])
     # which we then execute:
     if dry_run:
         logger.info(f'Would execute {command}')
diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0841987..5dee119 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -152,7 +152,7 @@ def mccode_run_compiled(binary, target, directory: Path | str, parameters: str,
     from mccode_antlr.loader import read_mccode_dat
     from pathlib import Path
 
-    result = run_compiled_instrument(binary, target, f'--dir {directory} {parameters}', capture=capture, dry_run=dry_run)
+    result = run_compiled_instrument(binary, target, ['--dir', str(directory), *parameters.split()], capture=capture, dry_run=dry_run)
     sim_files = list(Path(directory).glob('**/*.dat'))
     dats = {file.stem: read_mccode_dat(file) for file in sim_files}
     return result, dats
-- 
2.43.0


From 164c03ebe8c1eea9568a102f7f128be8b7f20973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 63/77] fix: the run commands print their version when asked
 for it

---
 src/mccode_antlr/run/runner.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 5dee119..1933e84 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -83,7 +83,7 @@ def mccode_run_script_parser(prog: str):
     parser = ArgumentParser(prog=prog, description=f'Convert and run mccode_antlr-3 instr and comp files to {prog} runtime in C')
     aa = parser.add_argument
 
-    aa('filename', type=resolvable, nargs=1, help='.instr file name to be converted')
+    aa('filename', type=resolvable, nargs='?', help='.instr file name to be converted')
     aa('parameters', nargs='*', help='Parameters to be passed to the instrument', type=str, default=None)
     aa('-o', '--output-file', type=str, help='Output filename for C runtime binary', default=None)
     aa('-d', '--directory', type=str, help='Output directory for C runtime artifacts')
@@ -123,7 +123,13 @@ def parse_mccode_run_script(prog: str):
     import sys
     from .range import parse_scan_parameters
     sys.argv[1:] = sort_args(sys.argv[1:])
-    args = mccode_run_script_parser(prog).parse_args()
+    parser = mccode_run_script_parser(prog)
+    args = parser.parse_args()
+    if args.version:
+        print_version_information()
+        sys.exit(0)
+    if args.filename is None:
+        parser.error('No input file provided')
     parameters = parse_scan_parameters(args.parameters)
     return args, parameters
 
-- 
2.43.0


From 531699daa4fc456feeb6537a438cbe6c45217311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 64/77] fix: the sine of 180 degrees is not -1, that of -90
 degrees is

---
 src/mccode_antlr/instr/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 1cf52fc..09c4483 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -351,7 +351,7 @@ def sin_value(v: Expr, degrees=True):
     pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
     if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi / Expr.float(2))):
         return Expr.float(1)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(-pi / Expr.float(2))):
+    if (degrees and v.is_value(Expr.float(-90))) or (not degrees and v.is_value(-pi / Expr.float(2))):
         return Expr.float(-1)
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
-- 
2.43.0


From 21471c9e362a1aca9a1c4b89553b843297a761e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 65/77] fix: an angle in radian is not converted to radian once
 more

---
 src/mccode_antlr/instr/orientation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 09c4483..44502af 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -401,8 +401,8 @@ def degree_to_radian(v: Expr):
 
 
 def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
-    cx, cy, cz = [cos_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
-    sx, sy, sz = [sin_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
+    cx, cy, cz = [cos_value(r, degrees=degrees) for r in rotated]
+    sx, sy, sz = [sin_value(r, degrees=degrees) for r in rotated]
     # Rotation matrices following the McCode first x then y then z method of applying rotations.
     # The 3x3 rotation matrix part (which rotates the *axes* of a coordinate system):
     axes = (cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz,
@@ -634,8 +634,7 @@ class RotationPart(Part):
         return self.rotation_axis, self.v, 'degrees' if self.degrees else 'radian'
 
     def _cos_sin_one_zero(self):
-        r = self.v if self.degrees else degree_to_radian(self.v)
-        return cos_value(r), sin_value(r), Expr.float(1), Expr.float(0)
+        return cos_value(self.v, self.degrees), sin_value(self.v, self.degrees), Expr.float(1), Expr.float(0)
 
     def position(self, which=None) -> Vector:
         z = Expr.float(0)
-- 
2.43.0


From 450e1e9eeb9fe53f794ae6ab535beff2d6e735a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 66/77] fix: an inverted or reduced orientation keeps the unit
 of its angles

---
 src/mccode_antlr/instr/orientation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 44502af..492ce7f 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -926,10 +926,10 @@ class Orient:
         return self._rotation.reduce()
 
     def inverse(self):
-        return Orient(self._position.inverse(), self._rotation.inverse())
+        return Orient(self._position.inverse(), self._rotation.inverse(), self._degrees)
 
     def reduce(self):
-        return Orient(self._position.reduce(), self._rotation.reduce())
+        return Orient(self._position.reduce(), self._rotation.reduce(), self._degrees)
 
     def combine(self) -> Parts:
         # The position represents a coordinate and the rotation represents the axes of that coordinate system
-- 
2.43.0


From 02a9ef1e8304c08706ede59f84606169cba636fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 67/77] fix: ROTATED ABSOLUTE is absolute also when AT is
 RELATIVE

---
 src/mccode_antlr/instr/instance.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 88ea879..161ca19 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -106,12 +106,10 @@ class Instance:
             ar, rr = self.at_relative, self.rotate_relative
             if not isinstance(ar[0], Vector) or not isinstance(rr[0], Angles):
                 logger.warning(f'Expected {ar=} and {rr=} to be Vector and Angles respectively')
-            if rr[1] is None and ar[1] is not None:
-                logger.warning(f'Expected rotation reference to be specified when at reference is specified')
             at = ar[0] if isinstance(ar[0], Vector) else Vector(*ar[0])
-            an, ar = (ar[1].name, ar[1].orientation) if ar[1] else ("ABSOLUTE", None)
+            ar = ar[1].orientation if ar[1] else None
             rt = rr[0] if isinstance(rr[0], Angles) else Angles(*rr[0])
-            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else (an, ar)
+            rr = rr[1].orientation if rr[1] else None
             self.orientation = Orient.from_dependent_orientations(ar, at, rr, rt)
         # check if the defining component is marked noacc, in which case this _is_ cpu only
         if not self.type.acc:
-- 
2.43.0


From 5cd613484068fc2f2f52a8805f3703500b29d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 68/77] fix: an array size that contains the name of its C
 variable is kept

---
 src/mccode_antlr/translators/c_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 38e7d26..5096566 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -355,7 +355,7 @@ class DeclaresCVisitor(CVisitor):
             return literal_string(ctx)
 
         dd = ctx.directDeclarator()
-        after_dd_str = literal_string(ctx).replace(literal_string(dd), '')
+        after_dd_str = literal_string(ctx).removeprefix(literal_string(dd))
         dec = self.visit(dd)
         if isinstance(dec, CFuncPointer):
             dec.args = after_dd_str.strip('()')
-- 
2.43.0


From 36ce67988782f76ba854f4f9e303cdd609da807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 69/77] fix: the type of a C variable declared with __typeof__
 has its closing parenthesis

---
 src/mccode_antlr/translators/c_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 5096566..f1e8232 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -270,7 +270,7 @@ class DeclaresCVisitor(CVisitor):
         if (c := ctx.typedefName()) is not None:
             return self.visit(c)
         if (c := ctx.constantExpression()) is not None:
-            return f'__typeof__({self.visit(c)}'
+            return f'__typeof__({self.visit(c)})'
         return literal_string(ctx)
 
     # Keep going from here
-- 
2.43.0


From 731b9700c95adf677dda0f790ac4a0e43e71b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 70/77] fix: C declarations of which only one is an array are
 not equal

---
 src/mccode_antlr/translators/c_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index f1e8232..5eb3ae9 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -49,7 +49,7 @@ TCFuncPointer = TypeVar('TCFuncPointer', bound='CFuncPointer')
 
 def not_both_None_or_not_equal(a, b):
     if (a is None and b is not None) or (a is not None and b is None):
-        return False
+        return True
     return a is not None and b is not None and a != b
 
 def same_type(a, b):
-- 
2.43.0


From bec893103d71c5daad8c2beb59ec44927a5911e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 71/77] fix: an array of C characters can have a text
 initializer

---
 src/mccode_antlr/translators/c_listener.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 5eb3ae9..0990918 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -170,7 +170,8 @@ class CDeclarator:
 
     def as_struct_member(self, dims: int = 0, max_array_length: int = 16384):
         if self.init:
-            max_array_length = extract_initializer_size(self.init)
+            # a text initializer, as for `char name[] = "text";`, has no braces to count the elements of
+            max_array_length = extract_initializer_size(self.init) or max_array_length
         dims = len(self.elements) if self.elements else 0
         mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
         if len(mal) < dims:
-- 
2.43.0


From 9f193be844d5c034fd03a7336c48439634c01c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 72/77] fix: every element of a nested, text, or expression C
 array initializer is assigned

---
 src/mccode_antlr/translators/c_initialise.py |  7 ++--
 src/mccode_antlr/translators/c_listener.py   | 35 ++++++++++++++++++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 4d948dc..a608d5f 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -202,8 +202,11 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         initialized_value = 'NULL' if (c_dec.is_pointer and c_dec.init is None) else c_dec.init
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
         if c_dec.is_array and initialized_value is not None:
-            for i, val in enumerate(initialized_value.strip('{}').split(',')):
-                lines.append(f'  {fullname}[{i}] = {val.strip()};')
+            for subscript, val, is_text in c_dec.array_values(initialized_value):
+                if is_text:
+                    lines.append(f'  stracpy({fullname}{subscript}, {val}, sizeof({val}));')
+                else:
+                    lines.append(f'  {fullname}{subscript} = {val};')
         # elif c_dec.is_struct and initialized_value is not None:
         #     # deal with a structured initializer ...
         #     # = {.x=#, .y=#, ...}
diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 0990918..333b315 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -188,6 +188,41 @@ class CDeclarator:
             return f"{self}{''.join(f'[{n}]' for n in no)}"
         return str(self)
 
+    def array_values(self, init: str) -> list[tuple[str, str, bool]]:
+        """The subscript and value of each element in the initializer of this, possibly nested, array
+
+        A text that is the value of an array of characters is indicated since it can not be assigned to the array.
+
+        >>> [x.array_values(x.init) for x in extract_c_declared_variables('int a[2][2] = {{1, f(2, 3)}, {4}};')]
+        [[('[0][0]', '1', False), ('[0][1]', 'f(2, 3)', False), ('[1][0]', '4', False)]]
+        """
+        import re
+        values, position, value, nested = [], [], '', 0
+
+        def finished():
+            if text := value.strip():
+                is_text = text.startswith('"') and len(position) < len(self.elements or ())
+                # one value that is not in braces, like NULL, is for the first element
+                subscripts = position if position or is_text else [0] * len(self.elements or ())
+                values.append((''.join(f'[{i}]' for i in subscripts), text, is_text))
+
+        # a string or character literal, or any other single character
+        for piece in re.findall(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|.', init, re.DOTALL):
+            if piece == '{' and not nested and not value.strip():
+                position.append(0)
+            elif piece in (',', '}') and not nested and position:
+                finished()
+                value = ''
+                if piece == '}':
+                    position.pop()
+                else:
+                    position[-1] += 1
+            else:
+                nested += 1 if piece in ('(', '{') else -1 if piece in (')', '}') else 0
+                value += piece
+        finished()
+        return values
+
 
 def extract_initializer_size(init: str) -> tuple[int,...]:
     """Assuming that the provided initializer string is for an array, possibly
-- 
2.43.0


From 94440ba5fa1e13c3b38424ff948273f9fc86825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 73/77] fix: an array of the user variables is an array in the
 particle structure

---
 src/mccode_antlr/translators/c_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 860b95b..3d6632c 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -38,7 +38,7 @@ def header_pre_runtime(
     # Also store these strings in the appropriate instrument list for later def/undef as state variables
 
     uservar_string = '//user variables and comp - injections:\n' if len(uservars) else ''
-    uservar_string += '\n'.join([f'  {x};' for x in uservars])
+    uservar_string += '\n'.join([f'  {x.as_struct_member()};' for x in uservars])
 
     members = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars]
     # Shouldn't we exclude array-valued names here?
-- 
2.43.0


From 2bed734138def015640da3ef43c9827137d7175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 74/77] fix: a library that an included file requests is
 included as a library

---
 src/mccode_antlr/translators/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index ab13983..90ca911 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -90,7 +90,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
     def _handle_raw_c_include(self, parent: str, raw_c: str):
         import re
         re_lib = re.compile(r'^\s*%include\s*"(?P<libname>[^"\n\.]+)"\s*$', re.MULTILINE)
-        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n]+)"\s*$', re.MULTILINE)
+        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n]*\.[^"\n]*)"\s*$', re.MULTILINE)
         # Include statements without an extension are library includes (.h, plus .c if embedding the runtime)
         # McCode3 would insert the library immediately on first-encounter, but we want to collect all libraries
         # and ensure they're included before all components.
-- 
2.43.0


From e150fbc42ece71307d841ea0c12b0a8769b07024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 75/77] fix: any hierarchy of libraries without a cycle has an
 order

---
 src/mccode_antlr/translators/c.py | 58 +++++++------------------------
 1 file changed, 13 insertions(+), 45 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 90ca911..fa0b8ea 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -20,56 +20,24 @@ class CInclude:
     def __str__(self):
         return f'{self.root}:{self.parent}({self.order}):{self.name}'
 
-    def __lt__(self, other):
-        if self.parent == other.parent:
-            return self.order > other.order
-        if self.root or other.root:
-            if self.parent == self.root or self.parent == other.root:
-                return True
-            if other.parent == self.root or other.parent == other.root:
-                return False
-        if self.parent == other.name:
-            return False
-        if other.parent == self.name:
-            return True
-        return self.name < other.name
-
 
 def sort_include_hierarchy(includes: list[CInclude]):
     if len(includes) == 0:
         return []
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
-    # find the 'root' of the tree, a parent which is _not_ a named include:
-    names = set(x.name for x in includes)
-    roots = [parent for parent in dict.fromkeys(x.parent for x in includes) if parent not in names]
-    options = {}
-    for root in roots:
-        for include in includes:
-            include.root = root
-        # Sort the includes such that if A includes B and C, and C includes B, then we get [C:B, A:C, A:B]
-        # Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W(Y) -> [Z:Y, W:Y, A:X, B:W, Z:B, G:A, G:Z, G:W]
-        used, output = [], []
-        for include in sorted(includes, reverse=True):
-            if include.name not in used:
-                output.append(include)
-                used.append(include.name)
-        # Reduce output to [C:B, A:C], or [Z:Y, A:X, B:W, Z:B, G:A, G:Z], which would include the libraries correctly
-        # Double check, that the include order does not _directly_ contradict one of the include directives:
-        order = [x.name for x in output]
-        contradicts = False
-        for include in includes:
-            if include.parent in order and include.name in order:
-                parent_at = [index for index, name in enumerate(order) if name == include.parent][0]
-                name_at = [index for index, name in enumerate(order) if name == include.name][0]
-                if name_at > parent_at:
-                    contradicts = True
-        if not contradicts:
-            logger.debug(f"sorted to {'  '.join(order)}")
-            options[root] = output
-    if len(options) == 0:
-        raise RuntimeError(f'No valid sorting of {includes=}')
-    # Maybe there's a case where the specified root matters?
-    return list(options.values())[0]
+    names = list(dict.fromkeys(x.name for x in includes))
+    order = []
+    while len(order) < len(names):
+        # the next library in the order of the requests ...
+        path = [next(name for name in names if name not in order)]
+        # ... comes after every library that it, or one which it includes, needs first
+        while needed := [x.name for x in includes if x.parent == path[-1] and x.name not in order]:
+            if needed[0] in path:
+                raise RuntimeError(f'No valid sorting of {includes=}')
+            path = path + needed[:1]
+        order.append(path[-1])
+    logger.debug(f"sorted to {'  '.join(order)}")
+    return [next(x for x in includes if x.name == name) for name in order]
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
-- 
2.43.0


From dd941ac25ac7d086cd4eaba8777c1f677fee914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 76/77] fix: a library that several library sources request is
 written once, after those it needs

---
 src/mccode_antlr/translators/c.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index fa0b8ea..c5feb90 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -297,18 +297,19 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         self.out(f'/* Contents of {header.name}.h (requested from {header.parent}) */')
         self.out(header.content)
 
-    def include_source(self, source: CInclude):
+    def include_source(self, source: CInclude, included: set):
         self.info(f'include {source} source')
         # c files can %include *more* files! If the specified files have already been included, there's nothing
-        # to do. Otherwise, panic.
-        lib_names = [lib.name for lib in self.includes]
+        # to do. Otherwise, include them here, once.
         c_name = f'{source.name}.c'
         c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
-        for c_lib in [c_lib for c_lib in c_libraries if c_lib.name not in lib_names]:
+        missing = sort_include_hierarchy([c_lib for c_lib in c_libraries if c_lib.name not in included])
+        included.update(c_lib.name for c_lib in missing)
+        for c_lib in missing:
             logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
             self.include_header(c_lib)
-            self.include_source(c_lib)
-            #self.includes.append(c_lib)
+        for c_lib in missing:
+            self.include_source(c_lib, included)
         self.out(f'/* Contents of {source.name}.c (requested from {source.parent}) */')
         self.out(c_content)
 
@@ -327,8 +328,9 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         self.info('Include runtime / list dependencies')
         if self.config.get('include_runtime'):
+            included = set(include.name for include in self.includes)
             for include in self.includes:
-                self.include_source(include)
+                self.include_source(include, included)
         else:
             for include in self.includes:
                 print(f'Dependency: {include.name}.o')
-- 
2.43.0


From 26b41fbfb839366dd1d140ba6e47361acbe84cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:22 +0000
Subject: [PATCH 77/77] fix: the first size of an array may be left out when
 another one is symbolic

---
 src/mccode_antlr/translators/c_listener.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 333b315..ea26532 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -375,7 +375,8 @@ class DeclaresCVisitor(CVisitor):
                 elements = tuple(int(n) if len(n) else 0 for n in nums)
             except ValueError as er:
                 logger.info(f"Could not convert an integer from {nums} due to {er}")
-                elements = nums
+                # a size that is left out is 0, as for numbers
+                elements = tuple(n if len(n) else 0 for n in nums)
         return CDeclarator(pointer=ptr, declare=dec, extensions=extensions, elements=elements)
 
     def visitPointer(self, ctx:CParser.PointerContext):
-- 
2.43.0

