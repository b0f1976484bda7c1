From ccb5940f4e476d0e6f9a6bddc10c084a5317731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 01/84] fix: return the stored bytes from the dulwich content
 engine

---
 capture/noworkflow/now/persistence/content/dulwich_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index fe13a10..78c7d25 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -60,7 +60,7 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             return_data = self.repo.__getitem__(
                 content_hash.encode()
-            ).as_pretty_string()
+            ).as_raw_string()
             return return_data
 
     def find_subhash(self, content_hash):
-- 
2.43.0


From a410f87b70dcf6b88290267404f9444e83b51f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 02/84] fix: look up content by hash prefix in the dulwich
 engine

---
 capture/noworkflow/now/persistence/content/dulwich_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 78c7d25..9305039 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -67,7 +67,9 @@ class DulwichEngine(GitContentDatabaseEngine):
         """Find hash in git"""
         try:
             content_hash = content_hash.encode("utf-8")
-            result = scan_for_short_id(self.repo.object_store, content_hash)
+            result = scan_for_short_id(
+                self.repo.object_store, content_hash, Blob
+            )
             if result:
                 return result.id.decode("utf-8")
         except KeyError:
-- 
2.43.0


From 1141d64ed121dcab26f065fa48021c0f954cbef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 03/84] fix: make the filename optional when putting content in
 the plain engine

---
 capture/noworkflow/now/persistence/content/plain_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index a7e0143..84a61ac 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -39,7 +39,7 @@ class PlainEngine(ContentDatabaseEngine):
         """Return attributes for the do_put operation"""
         return (self.content_path, content)
 
-    def put(self, content, filename):  # pylint: disable=method-hidden
+    def put(self, content, filename="generic"):  # pylint: disable=method-hidden
         """Put content in the content database"""
         return self.do_put(*self.put_attr(content, filename))
 
-- 
2.43.0


From 18e649abd7722fa094068f7780979dde85a4d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 04/84] fix: allow 'now gc' on plain content databases

---
 capture/noworkflow/now/persistence/content/plain_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 84a61ac..794b969 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -64,7 +64,7 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
-    def gc(self, content_hash):
+    def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
 
-- 
2.43.0


From d2a473f42db72565a5b3fd12be7d6e311c8e19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 05/84] fix: return the hash as text in the puregit engine

---
 capture/noworkflow/now/persistence/content/puregit_engine.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index d11b414..de56cfa 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -47,13 +47,10 @@ class PureGitEngine(GitContentDatabaseEngine):
     def find_subhash(self, content_hash):
         """Find hash in database"""
         bytes_content_hash = content_hash.encode("utf-8")
-        print(bytes_content_hash)
         objects = git_system.all_objects(self.content_path)
-        print(objects)
         for obj in objects:
-            print(obj)
             if obj.startswith(bytes_content_hash):
-                return obj
+                return obj.decode("utf-8")
         return None
 
     def create_initial_commit(self):
-- 
2.43.0


From 9e4d11aeb8f3447f16148d30c20b42e46b75d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 06/84] fix: do not treat siblings that share a prefix with the
 project as part of it

---
 capture/noworkflow/now/persistence/content/gitbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index eb224d0..1bb146a 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -64,9 +64,9 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
     def _inc_name(self, filename):
         """Define name for file in repository"""
         filename = os.path.abspath(filename)
-        if filename.startswith(self.base_path):
+        if filename.startswith(os.path.join(self.base_path, "")):
             filename = os.path.relpath(filename, self.base_path)
-        elif filename.startswith(self.user_path):
+        elif filename.startswith(os.path.join(self.user_path, "")):
             filename = os.path.join("noworkflow_home", os.path.relpath(filename, self.user_path))
         else:
             drive, rest = os.path.splitdrive(filename)
-- 
2.43.0


From c2d505955c6969fdf89ffffcb57213be1b7c71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 07/84] fix: commit in the puregit engine without a configured
 git identity

---
 capture/noworkflow/now/persistence/content/git_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 3d93ed7..ef4512c 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -81,6 +81,7 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
     if author:
         env = env.copy()
         env["GIT_AUTHOR_NAME"], env["GIT_AUTHOR_EMAIL"] = author
+        env["GIT_COMMITTER_NAME"], env["GIT_COMMITTER_EMAIL"] = author
     return execute(cmd, cwd=git_path, env=env).decode().replace("\n", "")
 
 
-- 
2.43.0


From 6bc18ce6b3b4bbfa94bbc2b51c842527c0e02a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 08/84] fix: keep every version of a file in the content commit
 when names collide

---
 .../noworkflow/now/persistence/content/gitbase.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 1bb146a..67157f5 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -19,6 +19,7 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self._commit_ref = 'refs/heads/master'
         self._initial_message = "Initial Commit"
         self.name_counter = Counter()
+        self.used_names = set()
         self.base_path = None
         self.user_path = os.path.expanduser("~")
         self._max_filename_size = 4096
@@ -55,11 +56,15 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
     def _increment(self, filename):
         """Increment filename to avoid collisions"""
         filename = filename.strip()
-        self.name_counter[filename] += 1
-        count = self.name_counter[filename] 
-        if count == 1:
-            return filename
-        return "{} - v{}".format(filename, count)
+        while True:
+            self.name_counter[filename] += 1
+            count = self.name_counter[filename]
+            result = filename
+            if count > 1:
+                result = "{} - v{}".format(filename, count)
+            if result not in self.used_names:
+                self.used_names.add(result)
+                return result
 
     def _inc_name(self, filename):
         """Define name for file in repository"""
-- 
2.43.0


From 5ec3dfbdf5d642eef96a2f810c8b056602272fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 09/84] fix: commit the content of files that are inside a .git
 directory

---
 capture/noworkflow/now/persistence/content/gitbase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 67157f5..b0cc9cd 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -78,6 +78,11 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
             if rest.startswith("/"):
                 rest = rest[1:]
             filename = os.path.join("noworkflow_root", drive, rest)
+        # git does not accept .git as the name of a tree entry
+        filename = os.sep.join(
+            "noworkflow_git" if part.lower() == ".git" else part
+            for part in filename.split(os.sep)
+        )
         result = self._increment(filename)
         if len(result) > self._max_filename_size:
             filename = os.path.join("noworkflow_long", os.path.basename(filename))
-- 
2.43.0


From 2e1d6345a0fe53068d53fbff9143c321a7b818d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 10/84] fix: commit paths that were used both as a file and as
 a directory

---
 .../noworkflow/now/persistence/content/gitbase.py  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index b0cc9cd..a35556f 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -38,9 +38,17 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self.close()
         trees = {'': self.new_tree('')}
 
-        for key, value in self.object_hashes.items():
-            basename = os.path.basename(key)
-            self.insert_blob(self._get_tree(trees, key), basename, value)
+        blobs = dict(self.object_hashes.items())
+        for key in blobs:
+            self._get_tree(trees, key)
+
+        for key, value in blobs.items():
+            name = key
+            while name in trees or (name != key and name in blobs):
+                # The same path was used as a file and as a directory
+                name += " - file"
+            basename = os.path.basename(name)
+            self.insert_blob(self._get_tree(trees, name), basename, value)
 
         tree_hashes = {}
         tree_keys = sorted(list(trees.keys()), key=len, reverse=True)
-- 
2.43.0


From 67e04dcceb690d0ab32fe361b72890de85deb4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 11/84] fix: accept any exit code in sys.exit

---
 capture/noworkflow/now/collection/prov_execution/execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index e6172fd..2cda28f 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -64,7 +64,8 @@ class Execution(object):
             exec(compiled, metascript.namespace)  # pylint: disable=exec-used
             sys.meta_path.remove(metascript.definition.finder)
         except SystemExit as ex:
-            self.force_msg = self.partial = ex.code > 0
+            # sys.exit accepts None (success) and any object (failure)
+            self.force_msg = self.partial = bool(ex.code)
             self.msg = ("the execution exited via sys.exit(). Exit status: {}"
                         "".format(ex.code))
 
-- 
2.43.0


From ea51218ef1ea144fbb70d5eb7b786da06a2db5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 12/84] fix: do not leave lambda definitions in the dependency
 stack

---
 .../now/collection/prov_execution/collector.py      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5553bb..d5b6fcf 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1319,7 +1319,8 @@ class Collector(object):
                         assign = activation.assignments[-1]
                         future.dependencies[0].replace(assign.dependency.clone(mode="argument", kind="argument"))
                         activation.dependencies.insert(-1, assign.dependency)
-                    elif function_def.__name__ in activation.dependencies[-2].maybe_activation:
+                    elif (len(activation.dependencies) > 1 and
+                          function_def.__name__ in activation.dependencies[-2].maybe_activation):
                         future.dependencies[0].replace(activation.dependencies[-2].clone(mode="argument", kind="argument"))
                     elif len(activation.dependencies) > 1:
                         future.dependencies[0].replace(activation.dependencies[1])
@@ -1389,10 +1390,12 @@ class Collector(object):
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
-            closure_activation.dependencies.append(DependencyAware(
-                exc_handler=defaults.exc_handler,
-                code_id=block_id,
-            ))
+            if function_def.__name__ != "<lambda>":
+                # collect_function_def pops it, but lambdas do not invoke it
+                closure_activation.dependencies.append(DependencyAware(
+                    exc_handler=defaults.exc_handler,
+                    code_id=block_id,
+                ))
             if closure_activation.active:
                 self.eval_dep(
                     closure_activation, block_id, new_function_def, mode
-- 
2.43.0


From 1b8eb49aa60182cdb35cd0acea360d37ee568941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:43 +0000
Subject: [PATCH 13/84] fix: do not define each function of the script twice

---
 .../prov_definition/transformer_stmt.py           | 15 ++++++++++-----
 .../now/collection/prov_execution/collector.py    |  3 ++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9688db8..996ed99 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -237,9 +237,11 @@ class RewriteAST(ast.NodeTransformer):
             elif PY36 and isinstance(stmt, ast.AnnAssign):
                 self.visit_annassign(new_body, stmt)
             elif isinstance(stmt, ast.FunctionDef) or (PY36 and isinstance(stmt, ast.AsyncFunctionDef)):
-                old_fd = deepcopy(stmt)
-                old_fd.name = "__now_original_" + stmt.name
-                new_body.append(old_fd) 
+                if stmt.name == "__repr__":
+                    # Keep original definition for representing values
+                    old_fd = deepcopy(stmt)
+                    old_fd.name = "__now_original_" + stmt.name
+                    new_body.append(old_fd)
                 new_body.append(self.visit(stmt))
             elif isinstance(stmt, ast.Break):
                 self.visit_break(new_body, stmt)
@@ -384,7 +386,7 @@ class RewriteAST(ast.NodeTransformer):
         def f(x, y=2, *args, z=3, **kwargs):
             ...
         Into:
-        @<now>.collect_function_def(<act>, 'f', __now_original_f)
+        @<now>.collect_function_def(<act>, 'f', None)
         @<now>.decorator(__now_activation__)(|dec|)
         @<now>.function_def(<act>)(<act>, <block_id>, <defaults>)
         def f(__now_activation__, __now_function_def__, __now_args__, __now_kwargs__, 
@@ -412,10 +414,13 @@ class RewriteAST(ast.NodeTransformer):
             )
 
             new_node = copy(node)
+            original = none()
+            if node.name == "__repr__":
+                original = ast.Name("__now_original_" + node.name, L())
             decorators = [ast_copy(noworkflow('collect_function_def', [
                 activation(),
                 ast.Str(new_node.name),
-                ast.Name("__now_original_" + node.name, L())
+                original
             ]), new_node)]
             for index, dec in enumerate(new_node.decorator_list):
                 self.composition_edge = (func_id, Component.M_DECORATOR_LIST, index)
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5b6fcf..9902512 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1412,7 +1412,8 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[function_name] = dependency.evaluation
-            function_def.original_def = original_def
+            if original_def is not None:
+                function_def.original_def = original_def
             return function_def
         return dec
 
-- 
2.43.0


From 26ecc77c8d3c7501657336e525f7876d905f637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 14/84] fix: keep the docstrings of the script and its
 functions

---
 .../collection/prov_definition/transformer_stmt.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 996ed99..a5c76db 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -161,6 +161,10 @@ class RewriteAST(ast.NodeTransformer):
         with self.exc_handler():
             # ToDo: from __future__ import ...
             future_imports = select_future_imports(new_node.body)
+            docstring = []
+            if (not future_imports and
+                    ast.get_docstring(node, clean=False) is not None):
+                docstring = [deepcopy(node.body[0])]
             index = 0
             for stmt in future_imports:
                 self.create_composition(
@@ -192,7 +196,7 @@ class RewriteAST(ast.NodeTransformer):
             iscell = none()
             if self.cell is not None:
                 iscell = name = ast.Str(self.cell)
-            body = future_imports + [
+            body = docstring + future_imports + [
                 ast_copy(ast.Assign(
                     [ast.Name('__now_result__', S())],
                     none()
@@ -442,7 +446,10 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             ), new_node))
 
-            body = [
+            docstring = []
+            if ast.get_docstring(node, clean=False) is not None:
+                docstring = [deepcopy(node.body[0])]
+            body = docstring + [
                 ast_copy(ast.Expr(noworkflow('match_arguments', [
                     activation(),
                     ast.Name('__now_function_def__', L()),
-- 
2.43.0


From e2c0a5577ec823a86cf8d0efc2bceae58f434325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 15/84] fix: evaluate if, while and conditional expressions
 without raising exceptions

---
 .../prov_definition/transformer_stmt.py       | 104 +++++++-----------
 .../collection/prov_execution/collector.py    |  35 +++---
 .../collection/prov_execution/structures.py   |  15 ---
 .../now/persistence/lightweight/activation.py |   5 +-
 4 files changed, 59 insertions(+), 100 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index a5c76db..23bbe71 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -15,7 +15,7 @@ import pyposast
 from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
 from .ast_helpers import select_future_imports
 
-from .ast_elements import maybe, context, raise_, now_attribute
+from .ast_elements import maybe, context
 from .ast_elements import L, S, none, call, param, true_false, true, false
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import activation, function_def, class_def, try_def
@@ -886,7 +886,7 @@ class RewriteAST(ast.NodeTransformer):
                 ...
         Into:
             try:
-                <now>.prepare_while(<act>)
+                <now>.prepare_condition(<act>)
                 while <now>.remove_condition(
                     <act>)(<now>.condition(<act>, <exc>)(<act>, |x|)):
                     ...
@@ -896,7 +896,7 @@ class RewriteAST(ast.NodeTransformer):
                 <now>.collect_exception(<act>, <exc>)
                 raise
             finally:
-                <now>.remove_condition(<act>)
+                <now>.finish_condition(<act>)
         """
         # pylint: disable=invalid-name
         while_id = self.create_ast_component(node, Component.WHILE)
@@ -924,8 +924,7 @@ class RewriteAST(ast.NodeTransformer):
 
             return ast_copy(try_def([
                 ast_copy(ast.Expr(noworkflow(
-                    'prepare_while',
-                    [activation(), ast.Num(self.current_exc_handler)]
+                    'prepare_condition', [activation()]
                 )), new_node),
                 new_node
             ], [
@@ -938,7 +937,7 @@ class RewriteAST(ast.NodeTransformer):
                 ]), new_node)
             ], [], [
                 ast_copy(ast.Expr(noworkflow(
-                    'remove_condition', [activation()]
+                    'finish_condition', [activation()]
                 )), new_node)
             ], new_node), new_node)
 
@@ -951,82 +950,55 @@ class RewriteAST(ast.NodeTransformer):
                 ...2
             else:
                 ...3
-        Into: # Replaces If to avoid creating unnecessary nested blocks
+        Into:
             try:
-                raise (
-                    <now>.condition_exceptions[0]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[1]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[2]()
-                )
-            except <now>.condition_exceptions[0]:
-                ...1
-            except <now>.condition_exceptions[1]:
-                ...2
-            except <now>.condition_exceptions[2]:
-                ...3
+                <now>.prepare_condition(<act>)
+                if <now>.condition(<act>, <exc>)(<act>, |x|):
+                    ...1
+                elif <now>.condition(<act>, <exc>)(<act>, |y|):
+                    ...2
+                else:
+                    ...3
             finally:
-                <now>.remove_condition(__now_activation__)
+                <now>.finish_condition(<act>)
         """
         # pylint: disable=invalid-name
-        handlers = []
-        def access_if(ifnod, exc_id):
-            """Create ifexp considering elif"""
+        def process_if(ifnod):
+            """Create if considering elif"""
             if_id = self.create_ast_component(ifnod, Component.IF)
             self.create_composition(if_id, *self.composition_edge)
-            subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id)), L()
-            )
-            else_subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id + 1)), L()
-            )
-            handlers.append(ast_copy(ast.ExceptHandler(
-                subscript, None,
-                self.process_body(ifnod.body, if_id)
-            ), ifnod))
-            if_result = call(subscript, [])
-
-            else_block = None
-            if not ifnod.orelse:
-                else_block = [ast.Pass()]
-            elif len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
+            new_node = copy(ifnod)
+            new_node.body = self.process_body(ifnod.body, if_id)
+
+            if len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
                 self.composition_edge = (if_id, Component.M_ORELSE, 0)
-                else_result = access_if(ifnod.orelse[0], exc_id + 1)
+                new_node.orelse = [process_if(ifnod.orelse[0])]
             else:
-                else_block = self.process_body(
+                new_node.orelse = self.process_body(
                     ifnod.orelse, if_id, attr=Component.M_ORELSE
                 )
 
-            if else_block is not None:
-                handlers.append(ast_copy(ast.ExceptHandler(
-                    else_subscript, None, else_block
-                ), ifnod))
-                else_result = call(else_subscript, [])
-
             self.composition_edge = (if_id, Component.S_TEST)
-            return ast_copy(ast.IfExp(
-                double_noworkflow(
-                    'condition',
-                    [
-                        activation(),
-                        ast.Num(self.current_exc_handler)
-                    ], [
-                        activation(),
-                        self.capture(ifnod.test, mode=Dependency.CONDITION)
-                    ]
-                ),
-                if_result,
-                else_result
+            new_node.test = ast_copy(double_noworkflow(
+                'condition',
+                [
+                    activation(),
+                    ast.Num(self.current_exc_handler)
+                ], [
+                    activation(),
+                    self.capture(ifnod.test, mode=Dependency.CONDITION)
+                ]
             ), ifnod)
+            return new_node
 
         return ast_copy(try_def([
-            ast_copy(raise_(access_if(node, 0)), node)
-        ], handlers, [], [
             ast_copy(ast.Expr(noworkflow(
-                'remove_condition', [activation()]
+                'prepare_condition', [activation()]
+            )), node),
+            process_if(node)
+        ], [], [], [
+            ast_copy(ast.Expr(noworkflow(
+                'finish_condition', [activation()]
             )), node)
         ], node), node)
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 9902512..065702a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -27,7 +27,7 @@ from ...utils.cross_version import cross_print, PY38
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
-from .structures import ConditionExceptions, WithContext
+from .structures import WithContext
 
 NOW_UNSET = "<now_unset>"
 
@@ -109,8 +109,6 @@ class Collector(object):
         self.Ellipsis = Ellipsis  # pylint: disable=invalid-name
         self.old_next = next
 
-        self.condition_exceptions = ConditionExceptions()
-
         # attribute<->self dependency
         self.current_attr = None
         # item<->key dependency
@@ -1779,9 +1777,19 @@ class Collector(object):
 
         return value
 
+    def prepare_condition(self, activation):
+        """Prepare if or while, by marking the existing conditions"""
+        # pylint: disable=no-self-use
+        activation.condition_marks.append(len(activation.conditions))
+
+    def finish_condition(self, activation):
+        """Finish if or while, by restoring the marked conditions"""
+        # pylint: disable=no-self-use
+        del activation.conditions[activation.condition_marks.pop():]
+
     def remove_condition(self, activation):
-        """Just remove the condition dependencies"""
-        activation.conditions.pop()
+        """Just remove the condition dependencies of the current while"""
+        del activation.conditions[activation.condition_marks[-1]:]
         return self._remove_condition
 
     def remove_conditions(self, activation, count):
@@ -1795,32 +1803,25 @@ class Collector(object):
         # pylint: disable=no-self-use
         return value
 
-    def prepare_while(self, activation, exc_handler):
-        """Prepare while, by adding empty condition"""
-        # pylint: disable=no-self-use
-        activation.conditions.append(DependencyAware(
-            exc_handler=exc_handler
-        ))
-
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
-        value = "<<<noWorkflow>>>"
+        self.prepare_condition(activation)
         try:
             activation.dependencies.append(DependencyAware(
                 exc_handler=exc_handler,
                 code_id=code_id
             ))
             value = if_lambda()
+            depa = activation.dependencies.pop()
+            if activation.active:
+                self.eval_dep(activation, code_id, value, mode, depa)
             return value
         except:
             self.collect_exception(activation, exc_handler)
             raise
         finally:
-            depa = activation.dependencies.pop()
-            if activation.active and value != "<<<noWorkflow>>>":
-                self.eval_dep(activation, code_id, value, mode, depa)
-            self.remove_condition(activation)
+            self.finish_condition(activation)
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
         """Collect py2 `repr`"""
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1e3610e..1fcaa9f 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -59,21 +59,6 @@ class Assign(namedtuple("Assign", "checkpoint value dependency")):
             self.generators[obj_id] = generator
 
 
-class ConditionExceptions(object):
-    """Exception factory for handling ifs transformed into tries"""
-    # pylint: disable=too-few-public-methods
-    def __init__(self):
-        self.exceptions = {}
-
-    def __getitem__(self, item):
-        if item not in self.exceptions:
-            class ConditionException(Exception):
-                """If body Exception"""
-                pass
-            self.exceptions[item] = ConditionException
-        return self.exceptions[item]
-
-
 class DependencyAware(object):
     """Store dependencies of an element"""
 
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 8fe6c61..9474317 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -46,8 +46,8 @@ class ActivationLW(BaseLW):
     __slots__, attributes = define_attrs(
         ["trial_id", "id", "name", "start_checkpoint", "code_block_trial_id",
          "code_block_id"],
-        ["file_accesses", "context", "conditions", "permanent_conditions",
-         "evaluation", "assignments", "closure", "func",
+        ["file_accesses", "context", "conditions", "condition_marks",
+         "permanent_conditions", "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
          "bound_dependency", "func_evaluation", "iscell"]
     )
@@ -86,6 +86,7 @@ class ActivationLW(BaseLW):
 
         # Track conditional dependencies
         self.conditions = []
+        self.condition_marks = []
         self.permanent_conditions = []
 
         # Active collection
-- 
2.43.0


From 89331221fa0efb5807580be9d438c6b52ea021a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 16/84] fix: propagate exceptions of generator expressions

---
 .../collection/prov_execution/collector.py    | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 065702a..ece9892 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -785,20 +785,19 @@ class Collector(object):
             ))
             gen = Generator()
             value = lvalue(gen)
-            return value
         except:
             self.collect_exception(activation, exc_handler)
             raise
-        finally:
-            depa = activation.dependencies.pop()
-            gen.value = value
-            if activation.active:
-                eva = self.evaluate_depa(activation, code_id, value, None, depa)
-                dependency = Dependency(eva, value, mode)
-                dependency.sub_dependencies.extend(depa.dependencies)
-                activation.dependencies[-1].add(dependency)
-                gen.evaluation = eva
-                gen.dependency = dependency
+        depa = activation.dependencies.pop()
+        gen.value = value
+        if activation.active:
+            eva = self.evaluate_depa(activation, code_id, value, None, depa)
+            dependency = Dependency(eva, value, mode)
+            dependency.sub_dependencies.extend(depa.dependencies)
+            activation.dependencies[-1].add(dependency)
+            gen.evaluation = eva
+            gen.dependency = dependency
+        return value
 
     def genitem(self, activation, code_id, exc_handler):
         """Capture genitem before"""
-- 
2.43.0


From 1ab604a60dc998051dded26a3aa52092fefdb612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 17/84] fix: catch every exception in bare except clauses

---
 .../now/collection/prov_definition/transformer_stmt.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 23bbe71..5fbf4ce 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1200,7 +1200,7 @@ class RewriteAST(ast.NodeTransformer):
         """
         new_node = copy(node)
         if new_node.type is None:
-            new_node.type = ast.Name('Exception', L())
+            new_node.type = ast.Name('BaseException', L())
         name = '__now_exception__'
         if new_node.name is None:
             new_node.name = name if PY3 else ast.Name(name, S())
-- 
2.43.0


From 13740e8d3ad58cf8cb42f9db9e2537c9f6cf00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:02 +0000
Subject: [PATCH 18/84] fix: support positional-only parameters and
 keyword-only defaults

---
 .../prov_definition/transformer_expr.py       | 10 +----
 .../prov_definition/transformer_stmt.py       | 39 +++++++++++++------
 .../collection/prov_execution/collector.py    | 20 ++++++++--
 3 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 0a6cc99..e6c72d1 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -262,15 +262,7 @@ class RewriteDependencies(ast.NodeTransformer):
             ), new_node),
             [new_node]
         ), new_node)
-        new_node.args.args = [
-            param('__now_activation__'),
-            param('__now_function_def__'),
-            param('__now_args__'),
-            param('__now_kwargs__'),
-            param('__now_default_values__'),
-            param('__now_default_dependencies__'),
-        ] + new_node.args.args
-        new_node.args.defaults = [none() for _ in new_node.args.defaults]
+        rewriter.replace_parameters(new_node.args)
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 5fbf4ce..1a01a0c 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -346,7 +346,8 @@ class RewriteAST(ast.NodeTransformer):
         self.create_composition(arguments_id, *self.composition_edge)
 
         arg_list = []
-        for index, arg in enumerate(arguments.args):
+        all_args = getattr(arguments, 'posonlyargs', []) + arguments.args
+        for index, arg in enumerate(all_args):
             self.composition_edge = (arguments_id, Component.M_ARGS, index)
             arg_list.append(self.process_arg(arg, arguments))
         args = ast.List(arg_list, L())
@@ -383,6 +384,30 @@ class RewriteAST(ast.NodeTransformer):
             defaults, kw_defaults
         ], L())
 
+    def replace_parameters(self, arguments):
+        """Add noWorkflow parameters and remove default values.
+        The default values are set by <now>.function_def"""
+        # pylint: disable=no-self-use
+        new_params = [
+            param('__now_activation__'),
+            param('__now_function_def__'),
+            param('__now_args__'),
+            param('__now_kwargs__'),
+            param('__now_default_values__'),
+            param('__now_default_dependencies__'),
+        ]
+        if getattr(arguments, 'posonlyargs', None):
+            arguments.posonlyargs = new_params + arguments.posonlyargs
+        else:
+            arguments.args = new_params + arguments.args
+        arguments.defaults = [
+            ast_copy(none(), arg) for arg in arguments.defaults
+        ]
+        if PY3:
+            arguments.kw_defaults = [
+                arg and ast_copy(none(), arg) for arg in arguments.kw_defaults
+            ]
+
     def visit_FunctionDef(self, node, cls=ast.FunctionDef, typ=Component.FUNCTION_DEF):
         """Visit Function Definition
         Transform:
@@ -461,17 +486,7 @@ class RewriteAST(ast.NodeTransformer):
                 ])), new_node)
             ] + self.process_body(new_node.body, func_id)
 
-            new_node.args.args = [
-                param('__now_activation__'),
-                param('__now_function_def__'),
-                param('__now_args__'),
-                param('__now_kwargs__'),
-                param('__now_default_values__'),
-                param('__now_default_dependencies__'),
-            ] + new_node.args.args
-            new_node.args.defaults = [
-                ast_copy(none(), arg) for arg in new_node.args.defaults
-            ]
+            self.replace_parameters(new_node.args)
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
                 returns=maybe(new_node, 'returns'), cls=cls
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index ece9892..38ed742 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1387,6 +1387,15 @@ class Collector(object):
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
+            if PY3 and function_def.__kwdefaults__:
+                code = function_def.__code__
+                start = code.co_argcount
+                names = code.co_varnames[start:start + code.co_kwonlyargcount]
+                kwdefaults = dict(zip(names, default_values[1]))
+                function_def.__kwdefaults__ = {
+                    name: kwdefaults[name]
+                    for name in function_def.__kwdefaults__
+                }
             if function_def.__name__ != "<lambda>":
                 # collect_function_def pops it, but lambdas do not invoke it
                 closure_activation.dependencies.append(DependencyAware(
@@ -1501,7 +1510,6 @@ class Collector(object):
         if not activation.active:
             return self.as_is
         # pylint: disable=too-many-locals, too-many-branches
-        # ToDo: use kw_defaults from default_values # pylint: disable=unused-variable
         time = self.time()
         defaults = default_dependencies.dependencies
         args, vararg, kwarg, kwonlyargs = params
@@ -1522,16 +1530,20 @@ class Collector(object):
 
         # Create parameters
         parameters = OrderedDict()
-        len_positional = len(args) - len(defaults)
+        len_defaults = len(default_values[0])
+        len_positional = len(args) - len_defaults
         for pos, arg in enumerate(args):
             param = parameters[arg[0]] = Parameter(*arg)
-            if pos >= len_positional:
+            if len_positional <= pos < len_positional + len(defaults):
                 param.default = defaults[pos - len_positional]
         if vararg:
             parameters[vararg[0]] = Parameter(*vararg, is_vararg=True)
         if kwonlyargs:
+            kw_defaults = iter(defaults[len_defaults:])
             for arg in kwonlyargs:
-                parameters[arg[0]] = Parameter(*arg)
+                param = parameters[arg[0]] = Parameter(*arg)
+                if arg[0] in (function_def.__kwdefaults__ or {}):
+                    param.default = next(kw_defaults, None)
         if kwarg:
             parameters[kwarg[0]] = Parameter(*kwarg)
 
-- 
2.43.0


From cdec7d1d8c4f4446257110f51fa6612ca2c3e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:18 +0000
Subject: [PATCH 19/84] fix: support unpacking in list, tuple, set and dict
 literals

---
 .../prov_definition/transformer_expr.py       | 101 ++++++++++++------
 .../collection/prov_execution/collector.py    |  65 ++++++++++-
 2 files changed, 127 insertions(+), 39 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index e6c72d1..edd4771 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -76,43 +76,68 @@ class RewriteDependencies(ast.NodeTransformer):
         ), value)
         return new_key, new_value
 
+    def _dict_unpack(self, value):
+        """Create dict unpacking: {**value}"""
+        component_id = self.rewriter.create_ast_component(
+            value, Component.KEY_VALUE
+        )
+        self.create_composition(component_id, *self.composition_edge)
+        self.composition_edge = (component_id, Component.S_VALUE)
+        return ast_copy(double_noworkflow(
+            'dict_unpack',
+            [
+                activation(),
+                ast.Num(component_id),
+                ast.Num(self.rewriter.current_exc_handler)
+            ], [
+                activation(),
+                ast.Num(component_id),
+                self.rewriter.capture(value, mode=Dependency.ITEM)
+            ]
+        ), value)
+
     def _itemize(self, item, ctx, set_key):
         """Create List/Tuple/Set Item"""
+        if PY3 and isinstance(item, ast.Starred) and ctx.startswith('r'):
+            starred_id = self.rewriter.create_ast_component(
+                item, Component.STARRED
+            )
+            self.create_composition(starred_id, *self.composition_edge)
+            self.composition_edge = (starred_id, Component.S_VALUE)
+            fname, key = set_key()
+            return ast_copy(ast.Starred(double_noworkflow(
+                fname,
+                [
+                    activation(),
+                    ast.Num(starred_id),
+                    ast.Num(self.rewriter.current_exc_handler)
+                ], [
+                    activation(),
+                    ast.Num(starred_id),
+                    self.rewriter.capture(item.value, mode=Dependency.ITEM),
+                    key,
+                    true(),
+                ]
+            ), L()), item)
         citem = ast_copy(self.rewriter.capture(item, mode=Dependency.ITEM), item)
         if ctx.startswith('r'):
             citem_component_id = self.rewriter._ast_num_from_component_id(
                 citem, item, Component.ITEM, 'r'
             )
             fname, key = set_key()
-            if PY3 and isinstance(citem, ast.Starred):
-                return ast_copy(ast.Starred(double_noworkflow(
-                    fname,
-                    [
-                        activation(),
-                        citem_component_id,
-                        ast.Num(self.rewriter.current_exc_handler)
-                    ], [
-                        activation(),
-                        citem_component_id,
-                        citem.value,
-                        key,
-                    ],
-                    __starred=true()
-                ), L()), citem)
-            else:
-                return ast_copy(double_noworkflow(
-                    fname,
-                    [
-                        activation(),
-                        citem_component_id,
-                        ast.Num(self.rewriter.current_exc_handler)
-                    ], [
-                        activation(),
-                        citem_component_id,
-                        citem,
-                        key,
-                    ]
-                ), citem)
+            return ast_copy(double_noworkflow(
+                fname,
+                [
+                    activation(),
+                    citem_component_id,
+                    ast.Num(self.rewriter.current_exc_handler)
+                ], [
+                    activation(),
+                    citem_component_id,
+                    citem,
+                    key,
+                ]
+            ), citem)
         return citem
 
     def create_composition(self, *args, **kwargs):
@@ -355,7 +380,10 @@ class RewriteDependencies(ast.NodeTransformer):
         new_keys, new_values = [], []
         for index, (key, value) in enumerate(zip(node.keys, node.values)):
             self.composition_edge = (dict_code_component, Component.S_KEY_VALUE, index)
-            new_key, new_value = self._dict_itemize(key, value)
+            if key is None:
+                new_key, new_value = None, self._dict_unpack(value)
+            else:
+                new_key, new_value = self._dict_itemize(key, value)
             new_keys.append(new_key)
             new_values.append(new_value)
 
@@ -1221,12 +1249,17 @@ class RewriteDependencies(ast.NodeTransformer):
 
         new_node = copy(node)
         new_items = []
+        unpacked = False
         for index, item in enumerate(new_node.elts):
             self.composition_edge = (list_code_component, Component.M_ELTS, index)
-            if set_key is None:
-                # pylint: disable=cell-var-from-loop
-                set_key = lambda: ('item', ast.Num(index))
-            new_items.append(self._itemize(item, ctx, set_key))
+            unpacked = unpacked or (PY3 and isinstance(item, ast.Starred))
+            # The position of elements after *unpacked ones is only known
+            # during the execution (-1)
+            position = -1 if unpacked else index
+            item_key = set_key or (
+                lambda position=position: ('item', ast.Num(position))
+            )
+            new_items.append(self._itemize(item, ctx, item_key))
 
         new_node.target_expr = ast.Tuple([
             ast.Tuple([
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 38ed742..5e0f0ce 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -756,9 +756,12 @@ class Collector(object):
         """Capture item after"""
         # pylint: disable=no-self-use
         value_depa = activation.dependencies.pop()
-        if key is None:
+        if starred:
+            # It consumes the iterable here, as the literal would do
+            value = list(value)
+        elif key is None:
             key = value
-        if key == -1:
+        elif key == -1:
             key = len(activation.dependencies[-1].items)
         if activation.active:
             if len(value_depa.dependencies) == 1:
@@ -770,9 +773,61 @@ class Collector(object):
                 dependency = Dependency(evaluation, value, "item")
             checkpoint = self.time()
             activation.dependencies[-1].add(dependency)
-            activation.dependencies[-1].items.append((
-                key, dependency.evaluation, checkpoint
-            ))
+            if starred:
+                members = dependency.evaluation.same().members
+                for index, element in enumerate(value):
+                    part = members.get("[{0!r}]".format(index))
+                    if part is None:
+                        part = self.evaluate_depa(
+                            activation, code_id, element, None,
+                            value_depa.clone()
+                        )
+                    activation.dependencies[-1].items.append((
+                        (
+                            element if key is None else
+                            len(activation.dependencies[-1].items)
+                        ),
+                        part, checkpoint
+                    ))
+            else:
+                activation.dependencies[-1].items.append((
+                    key, dependency.evaluation, checkpoint
+                ))
+        return value
+
+    def dict_unpack(self, activation, code_id, exc_handler):
+        """Capture dict unpacking before"""
+        activation.dependencies.append(DependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id,
+        ))
+        return self._dict_unpack
+
+    def _dict_unpack(self, activation, code_id, value):
+        """Capture dict unpacking after"""
+        value_depa = activation.dependencies.pop()
+        if activation.active:
+            if len(value_depa.dependencies) == 1:
+                dependency = value_depa.dependencies[0]
+            else:
+                evaluation = self.evaluate_depa(
+                    activation, code_id, value, None, value_depa
+                )
+                dependency = Dependency(evaluation, value, "item")
+            checkpoint = self.time()
+            activation.dependencies[-1].add(dependency)
+            if type(value) is dict:  # pylint: disable=unidiomatic-typecheck
+                members = dependency.evaluation.same().members
+                for key, element in value.items():
+                    part = members.get("[{0!r}]".format(key))
+                    if part is None:
+                        part = self.evaluate_depa(
+                            activation, code_id, element, None,
+                            value_depa.clone()
+                        )
+                    activation.dependencies[-1].items.append((
+                        key, part, checkpoint
+                    ))
         return value
 
     def genexp(self, activation, code_id, exc_handler, lvalue, mode):
-- 
2.43.0


From aa079d8315e7d2ab737265e3c3f71ef7f1e7e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:18 +0000
Subject: [PATCH 20/84] fix: do not require a bound value or exact parameters
 in special methods

---
 .../now/collection/prov_execution/collector.py         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 5e0f0ce..bd056ff 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1392,7 +1392,10 @@ class Collector(object):
                             )
                         else:
                             future.bound_dependency = True
-                    if function_def.__name__ in ("__new__", "__call__"):
+                    if (
+                        function_def.__name__ in ("__new__", "__call__")
+                        and activation.func_evaluation
+                    ):
                         future.bound_dependency = Dependency(
                             activation.func_evaluation, activation.func, "bound"
                         )
@@ -1654,6 +1657,9 @@ class Collector(object):
 
         # Match args
         for arg in arguments:
+            if last_unfilled >= len(parameter_order):
+                # Special methods may receive more dependencies than parameters
+                break
             if arg is None:
                 param = parameter_order[last_unfilled]
                 param.filled = True
@@ -1661,6 +1667,8 @@ class Collector(object):
             elif arg.arg == "*":
                 new_args.extend(arg.value)
                 for _ in range(len(arg.value)):
+                    if last_unfilled >= len(parameter_order):
+                        break
                     param = parameter_order[last_unfilled]
                     match(arg, param)
                     if param.is_vararg:
-- 
2.43.0


From b0d081032bf0fe640a3cb9d251ae4392dc14616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 21/84] fix: create each class once and support super() without
 arguments

---
 .../prov_definition/transformer_expr.py       | 12 ++++
 .../prov_definition/transformer_stmt.py       | 51 +++++++++++++++--
 .../collection/prov_execution/collector.py    | 57 ++++++++++++-------
 .../collection/prov_execution/structures.py   | 15 +++++
 .../now/persistence/lightweight/activation.py |  5 +-
 5 files changed, 112 insertions(+), 28 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index edd4771..b1571d7 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -907,6 +907,18 @@ class RewriteDependencies(ast.NodeTransformer):
             self.composition_edge = (id_, Component.M_KEYWORDS, index)
             keywords.append(self.process_call_keyword(k))
 
+        if (
+            rewriter.method_parameter
+            and isinstance(node.func, ast.Name) and node.func.id == 'super'
+            and not args and not keywords
+        ):
+            # super() can only find its default arguments if it is invoked
+            # directly by the method
+            args = [
+                ast_copy(ast.Name('__class__', L()), node),
+                ast_copy(ast.Name(rewriter.method_parameter, L()), node),
+            ]
+
         star, kwarg = None, None
         if not PY35:
             self.composition_edge = (id_, Component.S_STARARGS)
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 1a01a0c..85ee1c0 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -51,6 +51,10 @@ class RewriteAST(ast.NodeTransformer):
         self.container_id = container_id
         self.exc_handler_counter = 0
         self.current_exc_handler = 0
+
+        # Track the first parameter of functions defined inside classes
+        self.inside_class = False
+        self.method_parameter = None
         self.cell = cell
         self.composition_edge = None
 
@@ -484,7 +488,7 @@ class RewriteAST(ast.NodeTransformer):
                     ast.Name('__now_default_dependencies__', L()),
                     parameters,
                 ])), new_node)
-            ] + self.process_body(new_node.body, func_id)
+            ] + self.process_method_body(new_node, func_id)
 
             self.replace_parameters(new_node.args)
             return ast_copy(function_def(
@@ -492,6 +496,31 @@ class RewriteAST(ast.NodeTransformer):
                 returns=maybe(new_node, 'returns'), cls=cls
             ), new_node)
 
+    def process_method_body(self, node, func_id):
+        """Process the body of a function, with access to its first parameter
+        when it is inside a class"""
+        old_parameter = self.method_parameter
+        self.method_parameter = None
+        parameters = getattr(node.args, 'posonlyargs', []) + node.args.args
+        if PY3 and self.inside_class and parameters:
+            self.method_parameter = parameters[0].arg
+        try:
+            return self.process_body(node.body, func_id)
+        finally:
+            self.method_parameter = old_parameter
+
+    def process_class_body(self, body, class_id):
+        """Process the body of a class"""
+        old_parameter = self.method_parameter
+        old_inside_class = self.inside_class
+        self.method_parameter = None
+        self.inside_class = True
+        try:
+            return self.process_body(body, class_id)
+        finally:
+            self.inside_class = old_inside_class
+            self.method_parameter = old_parameter
+
     def visit_AsyncFunctionDef(self, node):
         """Visit Async Function Definition"""
         # pylint: disable=invalid-name
@@ -508,7 +537,7 @@ class RewriteAST(ast.NodeTransformer):
         @<now>.collect_class_def(<act>, 'c')
         @<now>.decorator(__now_activation__)(|dec|)
         @<now>.class_def(<act>)(<act>, <block_id>, <parameterss>)
-        class c(object):
+        class c(*<now>.class_bases(<act>), **<now>.class_keywords(<act>)):
             __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
             ...
         """
@@ -577,11 +606,23 @@ class RewriteAST(ast.NodeTransformer):
                         ast.Num(class_id)
                     ])
                 ), new_node),
-            ] + self.process_body(old_body, class_id)
+            ] + self.process_class_body(old_body, class_id)
+
+            if hasattr(new_node, 'keywords'): # Python 3
+                # The bases and keywords were evaluated by <now>.class_def
+                node_bases = [ast_copy(ast.Starred(
+                    noworkflow('class_bases', [activation()]), L()
+                ), new_node)]
+                node_keywords = [ast_copy(ast.keyword(
+                    None, noworkflow('class_keywords', [activation()])
+                ), new_node)]
+            else:
+                node_bases = node.bases
+                node_keywords = None
 
             result = ast_copy(class_def(
-                node.name, node.bases, body, decorators,
-                keywords=maybe(node, 'keywords')
+                node.name, node_bases, body, decorators,
+                keywords=node_keywords
             ), node)
             return result
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index bd056ff..2db821e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -27,7 +27,7 @@ from ...utils.cross_version import cross_print, PY38
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
-from .structures import WithContext
+from .structures import WithContext, ClassDefinition
 
 NOW_UNSET = "<now_unset>"
 
@@ -100,6 +100,7 @@ class Collector(object):
         self.first_activation.depth = 0
         self.last_activation = self.first_activation
         self.future_activation = []
+        self.class_definitions = []
         self.shared_types = {}
 
         # Original globals
@@ -1482,44 +1483,56 @@ class Collector(object):
         return dec
 
     def start_class(self, last_activation, class_name, code_component_id):
-        """Start script collection. Create new activation"""
+        """Start class collection. Create new activation"""
+        definition = self.class_definitions.pop()
+        # The name in the class body may refer to the activation of the module
+        last_activation = definition.closure
         activation = self.start_activation(
             class_name, code_component_id, code_component_id,
             last_activation
         )
         activation.closure = last_activation
+        definition.activation = activation
         return activation
 
     def class_def(self, activation, code_id, exc_handler):
         """Decorate class definition.
         Start collecting base dependencies
         """
-        activation.dependencies.append(DependencyAware(
-            exc_handler=exc_handler,
-            code_id=code_id,
-        ))
+        definition = ClassDefinition(activation, exc_handler, code_id)
+        activation.dependencies.append(definition.dependencies)
+        activation.class_definitions.append(definition)
         return self._class_def
 
-    def _class_def(self, mode, bases=(object,), metaclass=type, **kwargs):
+    def class_bases(self, activation):
+        """Return the bases evaluated by <now>.class_def"""
+        return activation.class_definitions[-1].bases
+
+    def class_keywords(self, activation):
+        """Return the keywords evaluated by <now>.class_def.
+        It is the last evaluated element before the class body"""
+        definition = activation.class_definitions.pop()
+        self.class_definitions.append(definition)
+        return definition.keywords
+
+    def _class_def(self, mode, bases=(), **kwargs):
         """Decorate class definition with then new activation.
         Collect arguments and match to parameters.
         """
-        def dec(cls):
-            """Decorate class definition. Based on six.add_metaclass"""
-            orig_vars = cls.__dict__.copy()
-            slots = orig_vars.get('__slots__')
-            if slots is not None:
-                if isinstance(slots, str):
-                    slots = [slots]
-                for slots_var in slots:
-                    orig_vars.pop(slots_var)
-            orig_vars.pop('__dict__', None)
-            orig_vars.pop('__weakref__', None)
-            class_def = metaclass(cls.__name__, bases, orig_vars, **kwargs)
-
-            activation = orig_vars['__now_activation__']
+        # The bases belong to the last class definition of the activation that
+        # is evaluating them
+        definition = self.last_activation.class_definitions[-1]
+        definition.mode = mode
+        definition.bases = bases
+        definition.keywords = kwargs
+        def dec(class_def):
+            """Finish the activation of the class body"""
+            activation = definition.activation
+            for name in ('__now_activation__', '__now__assign__'):
+                if isinstance(class_def, type) and name in vars(class_def):
+                    type.__delattr__(class_def, name)
             evaluation = activation.evaluation
-            closure_activation = activation.closure
+            closure_activation = definition.closure
             block_id = activation.code_block_id
 
             trial_id = self.trial_id
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1fcaa9f..ff914f8 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -172,6 +172,21 @@ class Dependency(object):
         return "{}({})".format(code_component.name, self.mode)
 
 
+class ClassDefinition(object):
+    """Represent the definition of a class in progress"""
+
+    def __init__(self, activation, exc_handler, code_id):
+        self.closure = activation
+        self.activation = None
+        self.dependencies = DependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id,
+        )
+        self.mode = None
+        self.bases = ()
+        self.keywords = {}
+
+
 class Parameter(object):
 
     def __init__(self, name, code_id, value, is_vararg=False):
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 9474317..7aee85a 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -46,7 +46,7 @@ class ActivationLW(BaseLW):
     __slots__, attributes = define_attrs(
         ["trial_id", "id", "name", "start_checkpoint", "code_block_trial_id",
          "code_block_id"],
-        ["file_accesses", "context", "conditions", "condition_marks",
+        ["file_accesses", "context", "conditions", "condition_marks", "class_definitions",
          "permanent_conditions", "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
          "bound_dependency", "func_evaluation", "iscell"]
@@ -87,6 +87,9 @@ class ActivationLW(BaseLW):
         # Track conditional dependencies
         self.conditions = []
         self.condition_marks = []
+
+        # Definitions of classes in progress
+        self.class_definitions = []
         self.permanent_conditions = []
 
         # Active collection
-- 
2.43.0


From afa19a83af63086342c888043b4c0bc34468e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 22/84] fix: keep comprehension items and the activation stack
 beyond the capture depth

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 2db821e..603bd09 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -390,6 +390,7 @@ class Collector(object):
             exc_handler=float('inf'), # do not delete
         ))
         activation.parent = act
+        activation.last_activation = self.last_activation
         self.last_activation = activation
         return activation
 
@@ -1162,7 +1163,8 @@ class Collector(object):
     def assign(self, activation, assign, target_expr, back=1):
         """Create dependencies"""
         if not activation.active:
-            return 0
+            # comprehensions use the result as a condition
+            return 1
         ldepa = []
         _, _, depa = assign
         if isinstance(depa, list):
-- 
2.43.0


From 683445a7e39601064a4d74e56b16e06bf5680690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 23/84] fix: allow context managers without assignments

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 603bd09..2f299cd 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1381,10 +1381,10 @@ class Collector(object):
                         future.dependencies[0].replace(activation.dependencies[1])
                     
                     find_bound_self = None
-                    if function_def.__name__ == "__enter__":
+                    if function_def.__name__ == "__enter__" and activation.assignments:
                         # ToDo: check the proper __enter__ assignment
                         find_bound_self = activation.assignments[-1].dependency
-                    if function_def.__name__ == "__init__":
+                    if function_def.__name__ == "__init__" and len(activation.dependencies) > 1:
                         # Find value in activation result (__init__ after __new__)
                         find_bound_self = activation.dependencies[1]
                     if find_bound_self:
@@ -1409,7 +1409,7 @@ class Collector(object):
                         future.bound_dependency = self.current_attr or True
 
                     result = _call(*args, **kwargs)
-                    if function_def.__name__ == "__enter__":
+                    if function_def.__name__ == "__enter__" and activation.assignments:
                         # ToDo: check the proper __enter__ assignment
                         try:
                             activation.assignments[-1].dependency.dependencies.extend(
-- 
2.43.0


From d1ce0d5d536d3975988831f7df89f4975b2f98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 24/84] fix: collect async generators

---
 .../noworkflow/now/collection/prov_execution/collector.py  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 2f299cd..0a47c73 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -31,6 +31,11 @@ from .structures import WithContext, ClassDefinition
 
 NOW_UNSET = "<now_unset>"
 
+GENERATOR_TYPES = tuple(
+    getattr(types, name) for name in ("GeneratorType", "AsyncGeneratorType")
+    if hasattr(types, name)
+)
+
 OPEN_MODES = {
     # All
     "O_RDONLY": "r",
@@ -1442,7 +1447,7 @@ class Collector(object):
                     self.make_dependencies(activation, evaluation, depa)
                     bound_dependency.mode = old_mode
                     
-                if isinstance(result, GeneratorType):
+                if isinstance(result, GENERATOR_TYPES):
                     activation.generator = Generator()
                     activation.generator.value = result
                 return result
-- 
2.43.0


From cd804a99d41c34ce89edb34e6cb96b104b32a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 25/84] fix: do not invoke comparison methods of the values of
 the script

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0a47c73..e717c21 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1825,9 +1825,9 @@ class Collector(object):
                 bind = False
                 if len(depa.dependencies) == 1:
                     gen_dep = depa.dependencies[0]
-                    bind = gen_dep.value == element
+                    bind = gen_dep.value is element
                 clone_depa, found = self.sub_dependency(
-                    dep, value, index, clone_depa
+                    dep, value, index, clone_depa, element
                 )
                 depa = depa.clone(mode="assign")
                 if found is not None:
@@ -1865,6 +1865,7 @@ class Collector(object):
     def _rcondition(self, activation, count, value):
         """Capture rcondition after. Remove conditions if false"""
         # pylint: disable=no-self-use
+        value = bool(value)
         self._condition(activation, value)
         if not value:
             self.remove_conditions(activation, count)
-- 
2.43.0


From e3450d123556b12d87f375952c84090dd3c66712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 26/84] fix: unpack and iterate any iterable without indexing
 it

---
 .../collection/prov_execution/collector.py    | 65 ++++++++++---------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e717c21..0ebd6fa 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -10,6 +10,7 @@ import weakref
 import os
 import time
 import inspect
+import types
 
 from collections import OrderedDict
 from copy import copy
@@ -21,7 +22,7 @@ from future.utils import viewvalues, viewkeys, viewitems, exec_
 
 from ...persistence import content
 from ...persistence.models import Trial
-from ...utils.cross_version import IMMUTABLE, isiterable, PY3
+from ...utils.cross_version import IMMUTABLE, PY3
 from ...utils.cross_version import cross_print, PY38
 
 from .structures import AssignAccess, Assign, Generator, FutureActivation
@@ -1054,9 +1055,12 @@ class Collector(object):
             self.make_dependencies(activation, eva, access_depa)
         return 1
 
-    def sub_dependency(self, dep, value, index, clone_depa):
+    def sub_dependency(self, dep, value, index, clone_depa, element):
         """Get dependency aware inside of another dependency aware"""
-        # pylint: disable=too-many-locals
+        # pylint: disable=too-many-locals, too-many-arguments
+        if isinstance(value, (dict, set, frozenset)):
+            # The index is not related to the address of members
+            return clone_depa, None
         meta = self.metascript
         new_eva = None
         val = NOW_UNSET
@@ -1073,7 +1077,7 @@ class Collector(object):
         if not new_eva:
             return clone_depa, None
         if val is NOW_UNSET:
-            val = value[index]
+            val = element
 
         new_depa = clone_depa.clone(extra_only=True)
         dependency = Dependency(new_eva, val, "assign")
@@ -1087,16 +1091,16 @@ class Collector(object):
         value = assign.value
         propagate_dependencies = (
             len(depa.dependencies) == 1 and
-            depa.dependencies[0].mode.startswith("assign") and
-            isiterable(value)
+            depa.dependencies[0].mode.startswith("assign")
         )
         clone_depa = depa.clone(mode="dependency")
-        def custom_dependency(_):
+        def custom_dependency(_, element):
+            # pylint: disable=unused-argument
             """Propagate dependencies"""
             return clone_depa, None
 
         if ldepa:
-            def custom_dependency(index):
+            def custom_dependency(index, element):
                 """Propagate dependencies"""
                 try:
                     return ldepa[index], None
@@ -1106,8 +1110,10 @@ class Collector(object):
             dep = depa.dependencies[0]
             if id(value) in assign.generators:
                 gens = assign.generators[id(value)]
-                def custom_dependency(index):
+                def custom_dependency(index, element):
                     """Propagate dependencies"""
+                    if index >= len(gens):
+                        return clone_depa, None
                     _, _, _, idep = gens[index]
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
@@ -1117,10 +1123,11 @@ class Collector(object):
                     return new_depa.clone(mode="assign"), idep.evaluation
                     #return self.sub_dependency(dep, value, index, clone_depa)
             else:
-                def custom_dependency(index):
+                def custom_dependency(index, element):
                     """Propagate dependencies"""
-                    return self.sub_dependency(dep, value, index, clone_depa)
-
+                    return self.sub_dependency(
+                        dep, value, index, clone_depa, element
+                    )
 
         return self.assign_multiple_apply(
             activation, assign, target_info, custom_dependency, back + 1
@@ -1129,38 +1136,36 @@ class Collector(object):
     def assign_multiple_apply(self, activation, assign, target_info, custom, back):
         """Create dependencies for assignment to tuple/list"""
         # pylint: disable=too-many-locals
-        assign_value = assign.value
         subcomps = target_info
+
+        def assign_position(subcomp, index):
+            """Assign element to subcomponent"""
+            val = self.value_from_target_expr(activation, assign, subcomp, back + 2)
+            adepa, _ = custom(index, val)
+            self.assign(activation, assign.sub(val, adepa), subcomp, back + 2)
+
         # Assign until starred
         starred = None
-        delta = 0
         for index, subcomp in enumerate(subcomps):
             if subcomp[-1] == "starred":
                 starred = index
                 break
-            val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
-            adepa, _ = custom(index)
-            delta += self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
+            assign_position(subcomp, index)
 
         if starred is None:
-            return delta
+            return 1
 
+        # ToDo: treat it as a plain slice
         star = subcomps[starred][0]
-        rdelta = -1
-        for index in range(len(subcomps) - 1, starred, -1):
-            subcomp = subcomps[index]
-            val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
-            new_index = len(assign_value) + rdelta
-            adepa, _ = custom(new_index)
-            rdelta -= self.assign(
-                activation, assign.sub(val, adepa), subcomp, back + 1)
+        new_value = self.value_from_target_expr(activation, assign, star, back + 1)
 
-        # ToDo: treat it as a plain slice
-        new_value = assign_value[delta:rdelta + 1]
+        delta = len(new_value) - 1
+        for index in range(len(subcomps) - 1, starred, -1):
+            assign_position(subcomps[index], index + delta)
 
         depas = [
-            custom(index)[0]
-            for index in range(delta, len(assign_value) + rdelta + 1)
+            custom(starred + index, element)[0]
+            for index, element in enumerate(new_value)
         ]
 
         return self.assign(activation, assign.sub(new_value, depas), star, back + 1)
-- 
2.43.0


From aaeb2eeec75fe14f95931d9db59c9503b2a6edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 27/84] fix: keep type parameters of functions and classes

---
 .../now/collection/prov_definition/ast_elements.py | 14 ++++++++++----
 .../collection/prov_definition/transformer_stmt.py |  6 ++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 251cda7..b8ca5b9 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -154,16 +154,19 @@ def param(value, annotation=None):
     return ast.Name(value, P())
 
 
-def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef):     # pylint: disable=too-many-arguments
+def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef, type_params=None): # pylint: disable=too-many-arguments
     """Create function definition"""
     constructor = [name, args, body, decs]
     if PY3:
         constructor.append(returns)
 
-    return cls(*constructor)
+    result = cls(*constructor)
+    if 'type_params' in cls._fields:
+        result.type_params = type_params or []
+    return result
 
 
-def class_def(name, bases, body, decorators, keywords=None):
+def class_def(name, bases, body, decorators, keywords=None, type_params=None): # pylint: disable=too-many-arguments
     """Create class definition"""
     constructor = [name, bases]
     if PY3:
@@ -171,7 +174,10 @@ def class_def(name, bases, body, decorators, keywords=None):
     constructor.append(body)
     constructor.append(decorators)
 
-    return ast.ClassDef(*constructor)
+    result = ast.ClassDef(*constructor)
+    if 'type_params' in ast.ClassDef._fields:
+        result.type_params = type_params or []
+    return result
 
 def try_def(body, handlers, orelse, finalbody, node=None):
     """Create try block"""
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 85ee1c0..1b0a98c 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -493,7 +493,8 @@ class RewriteAST(ast.NodeTransformer):
             self.replace_parameters(new_node.args)
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
-                returns=maybe(new_node, 'returns'), cls=cls
+                returns=maybe(new_node, 'returns'), cls=cls,
+                type_params=maybe(new_node, 'type_params')
             ), new_node)
 
     def process_method_body(self, node, func_id):
@@ -622,7 +623,8 @@ class RewriteAST(ast.NodeTransformer):
 
             result = ast_copy(class_def(
                 node.name, node_bases, body, decorators,
-                keywords=node_keywords
+                keywords=node_keywords,
+                type_params=maybe(node, 'type_params')
             ), node)
             return result
 
-- 
2.43.0


From 5b2409632ec9b9a08073ca9660c73fc276f83358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 28/84] fix: mangle private attribute names

---
 .../collection/prov_definition/transformer_expr.py  |  2 +-
 .../collection/prov_definition/transformer_stmt.py  | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index b1571d7..b04c37b 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -1104,7 +1104,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     activation(),
                     ast.Num(attribute_component),
                     self.rewriter.capture(node.value, mode=Dependency.VALUE),
-                    ast.Str(node.attr),
+                    ast.Str(self.rewriter.mangle(node.attr)),
                     ast.Str('.'),
                     ast.Str(mode),
                 ], L()),
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 1b0a98c..926c51e 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -54,6 +54,7 @@ class RewriteAST(ast.NodeTransformer):
 
         # Track the first parameter of functions defined inside classes
         self.inside_class = False
+        self.class_name = None
         self.method_parameter = None
         self.cell = cell
         self.composition_edge = None
@@ -510,8 +511,17 @@ class RewriteAST(ast.NodeTransformer):
         finally:
             self.method_parameter = old_parameter
 
-    def process_class_body(self, body, class_id):
+    def mangle(self, name):
+        """Apply the private name mangling of the current class"""
+        class_name = (self.class_name or '').lstrip('_')
+        if class_name and name.startswith('__') and not name.endswith('__'):
+            return '_{}{}'.format(class_name, name)
+        return name
+
+    def process_class_body(self, name, body, class_id):
         """Process the body of a class"""
+        old_name = self.class_name
+        self.class_name = name
         old_parameter = self.method_parameter
         old_inside_class = self.inside_class
         self.method_parameter = None
@@ -519,6 +529,7 @@ class RewriteAST(ast.NodeTransformer):
         try:
             return self.process_body(body, class_id)
         finally:
+            self.class_name = old_name
             self.inside_class = old_inside_class
             self.method_parameter = old_parameter
 
-- 
2.43.0


From 5f5a16cd7a593581483c1621ab83e400d0e08709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 29/84] fix: access members of any object

---
 .../collection/prov_execution/collector.py    | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0ebd6fa..bc3572c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -224,7 +224,7 @@ class Collector(object):
                 if hasattr(accessor, '__get__'):
                     # ToDo: accessor provenance
                     return False
-            if vindex in vcontainer.__dict__:
+            if vindex in getattr(vcontainer, '__dict__', {}):
                 # In instance
                 if isinstance(vcontainer, type):
                     accessor = vcontainer.__dict__[vindex]
@@ -235,8 +235,10 @@ class Collector(object):
             same = collection.same()
             cls_eval = (
                 same.members.get(".__class__")
-                or self.shared_types[cls_value]
+                or self.shared_types.get(cls_value)
             )
+            if cls_eval is None:
+                return False
             in_class = self.simple_member_lookup(
                 cls_eval, addr, value, depa, source=collection
             )
@@ -247,6 +249,17 @@ class Collector(object):
         else:
             return self.simple_member_lookup(collection, addr, value, depa)
 
+    def position(self, vcontainer, vindex):
+        """Return the non-negative position of an index in a sequence"""
+        # pylint: disable=no-self-use
+        if (
+            isinstance(vindex, int) and vindex < 0
+            and not isinstance(vcontainer, dict)
+            and hasattr(type(vcontainer), '__len__')
+        ):
+            return len(vcontainer) + vindex
+        return vindex
+
     def __getitem__(self, index):
         # pylint: disable=too-many-locals
         operation, subindex = index
@@ -264,12 +277,10 @@ class Collector(object):
             if value_dep is not None:
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
-                addr = "[{}]".format(nvindex)
+                addr = "[{}]".format(self.position(vcontainer, vindex))
                 value = vcontainer[vindex]
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     collection = value_dep.evaluation
@@ -279,6 +290,7 @@ class Collector(object):
                 addr = ".{}".format(vindex)
                 value = getattr(vcontainer, vindex)
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     self.full_member_lookup(
@@ -353,10 +365,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
 
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
-                addr = "[{}]".format(nvindex)
+                addr = "[{}]".format(self.position(vcontainer, vindex))
                 vcontainer[vindex] = value
             elif access == ".":
                 setattr(vcontainer, vindex, value)
-- 
2.43.0


From f79df91846531cade42d5b06a6bb4e4871ff2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 30/84] fix: tolerate exceptions of __repr__ when collecting
 values

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index bc3572c..54bcd61 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -137,7 +137,11 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
-        return repr_fn(value)
+        try:
+            return repr_fn(value)
+        except Exception:  # pylint: disable=broad-except
+            # The script did not ask for this representation
+            return object.__repr__(value)
 
     def as_is(self, value):
         """Return value without any processing"""
-- 
2.43.0


From 3d6fec00fde65088d26e3d1bbc07ad3e79356a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 31/84] fix: do not recurse forever on functions renamed by
 decorators

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 54bcd61..82cc49c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1383,7 +1383,11 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
-                if activation.active and activation.name != function_def.__name__: # White box after black box call
+                if (
+                    activation.active
+                    and activation.name != function_def.__name__
+                    and activation.func is not new_function_def
+                ): # White box after black box call
                     is_augassign = function_def.__name__ in {
                         '__iadd__', '__isub__', '__imul__', '__imatmul__', '__itruediv__', 
                         '__ifloordiv__', '__imod__', '__ipow__', '__ilshift__', '__irshift__', 
-- 
2.43.0


From e89bd4f73ee399a986ddb8fc1bf7c7046b9a1ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 32/84] fix: hide collection parameters from function
 signatures

---
 .../collection/prov_definition/transformer_stmt.py   |  2 +-
 .../now/collection/prov_execution/collector.py       | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 926c51e..ec87621 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -618,7 +618,7 @@ class RewriteAST(ast.NodeTransformer):
                         ast.Num(class_id)
                     ])
                 ), new_node),
-            ] + self.process_class_body(old_body, class_id)
+            ] + self.process_class_body(new_node.name, old_body, class_id)
 
             if hasattr(new_node, 'keywords'): # Python 3
                 # The bases and keywords were evaluated by <now>.class_def
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 82cc49c..f7b7099 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1359,6 +1359,17 @@ class Collector(object):
 
         return value
 
+    def hide_parameters(self, new_function_def):
+        """Hide the collection parameters from the signature of a function"""
+        # pylint: disable=no-self-use
+        if not PY3:
+            return
+        signature = inspect.signature(new_function_def)
+        new_function_def.__signature__ = signature.replace(parameters=[
+            parameter for name, parameter in signature.parameters.items()
+            if not name.startswith('__now_')
+        ])
+
     def function_def(self, activation, code_id, exc_handler):
         """Decorate function definition.
         Start collecting default arguments dependencies
@@ -1484,6 +1495,7 @@ class Collector(object):
                     name: kwdefaults[name]
                     for name in function_def.__kwdefaults__
                 }
+            self.hide_parameters(new_function_def)
             if function_def.__name__ != "<lambda>":
                 # collect_function_def pops it, but lambdas do not invoke it
                 closure_activation.dependencies.append(DependencyAware(
-- 
2.43.0


From 3d92693074ee85fbf0d40e581d6b89cd59bacdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:51 +0000
Subject: [PATCH 33/84] fix: do not require a captured instance in __init__

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index f7b7099..b8d9a5e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1469,7 +1469,7 @@ class Collector(object):
                     activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
                 )
                 bound_dependency = activation.bound_dependency
-                if function_def.__name__ == "__init__" and bound_dependency:
+                if function_def.__name__ == "__init__" and isinstance(bound_dependency, Dependency):
                     old_mode = bound_dependency.mode
                     depa = DependencyAware()
                     value = args[0]
-- 
2.43.0


From 3cf07db8bce03577dab2a49d8bb0730c93120322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:08 +0000
Subject: [PATCH 34/84] fix: store the dependencies of unpacked generators

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b8d9a5e..0b93af1 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1131,7 +1131,7 @@ class Collector(object):
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
                     self.create_dependencies_id(
-                        activation, dep.evaluation.id, new_depa
+                        activation.id, dep.evaluation.id, new_depa
                     )
                     return new_depa.clone(mode="assign"), idep.evaluation
                     #return self.sub_dependency(dep, value, index, clone_depa)
-- 
2.43.0


From 9e80f8527024dbbeb8589c911382445777611440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:08 +0000
Subject: [PATCH 35/84] fix: define classes inside generators

---
 .../now/collection/prov_execution/collector.py           | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0b93af1..d58ea2a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -15,7 +15,7 @@ import types
 from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
-from functools import wraps
+from functools import partial, wraps
 from types import GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
@@ -1543,7 +1543,7 @@ class Collector(object):
         definition = ClassDefinition(activation, exc_handler, code_id)
         activation.dependencies.append(definition.dependencies)
         activation.class_definitions.append(definition)
-        return self._class_def
+        return partial(self._class_def, definition)
 
     def class_bases(self, activation):
         """Return the bases evaluated by <now>.class_def"""
@@ -1556,13 +1556,10 @@ class Collector(object):
         self.class_definitions.append(definition)
         return definition.keywords
 
-    def _class_def(self, mode, bases=(), **kwargs):
+    def _class_def(self, definition, mode, bases=(), **kwargs):
         """Decorate class definition with then new activation.
         Collect arguments and match to parameters.
         """
-        # The bases belong to the last class definition of the activation that
-        # is evaluating them
-        definition = self.last_activation.class_definitions[-1]
         definition.mode = mode
         definition.bases = bases
         definition.keywords = kwargs
-- 
2.43.0


From f4dcc2634f4fb5e55ae1fb95936b53607254c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:34 +0000
Subject: [PATCH 36/84] fix: define classes inside generators and with any
 keyword

---
 .../now/collection/prov_execution/collector.py  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d58ea2a..b62317f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -15,7 +15,7 @@ import types
 from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
-from functools import partial, wraps
+from functools import wraps
 from types import GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
@@ -1543,7 +1543,13 @@ class Collector(object):
         definition = ClassDefinition(activation, exc_handler, code_id)
         activation.dependencies.append(definition.dependencies)
         activation.class_definitions.append(definition)
-        return partial(self._class_def, definition)
+        def _class_def(*args, **kwargs):
+            """Collect after the evaluation of the bases and keywords"""
+            # It does not name parameters to not conflict with the keywords
+            definition.mode, definition.bases = args
+            definition.keywords = kwargs
+            return self._class_def(definition)
+        return _class_def
 
     def class_bases(self, activation):
         """Return the bases evaluated by <now>.class_def"""
@@ -1556,13 +1562,10 @@ class Collector(object):
         self.class_definitions.append(definition)
         return definition.keywords
 
-    def _class_def(self, definition, mode, bases=(), **kwargs):
+    def _class_def(self, definition):
         """Decorate class definition with then new activation.
         Collect arguments and match to parameters.
         """
-        definition.mode = mode
-        definition.bases = bases
-        definition.keywords = kwargs
         def dec(class_def):
             """Finish the activation of the class body"""
             activation = definition.activation
@@ -1593,7 +1596,7 @@ class Collector(object):
             if closure_activation.active:
                 self.make_dependencies(closure_activation, evaluation, defaults)
                 closure_activation.dependencies[-1].add(Dependency(
-                    evaluation, class_def, mode
+                    evaluation, class_def, definition.mode
                 ))
             self.close_activation(activation, class_def, None)
             return class_def
-- 
2.43.0


From 8b57790931bff87d88f86a42bd3c3e414e69e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:16 +0000
Subject: [PATCH 37/84] fix: allow calls with a keyword named self

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b62317f..aad0890 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1262,8 +1262,10 @@ class Collector(object):
         activation.dependencies.append(depa)
         return self._call
 
-    def _call(self, *args, **kwargs):
-        """Capture call activation"""        
+    def _call(*args, **kwargs):  # pylint: disable=no-method-argument
+        """Capture call activation"""
+        # The script may invoke functions with a keyword called self
+        self, args = args[0], args[1:]
         future = self.future_activation.pop()
         parent_activation = future.activation
         parent_depa = parent_activation.dependencies.pop()
-- 
2.43.0


From bfe64f3e0fbba433f0ddba619297e58ca5b26384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:09 +0000
Subject: [PATCH 38/84] fix: support assignment expressions

---
 .../prov_definition/transformer_expr.py       | 34 +++++++++++++++++++
 .../collection/prov_execution/collector.py    | 18 ++++++++++
 2 files changed, 52 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index b04c37b..cd8e25f 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -1184,6 +1184,40 @@ class RewriteDependencies(ast.NodeTransformer):
         node.target_expr = new_node.target_expr
         return new_node
 
+    def visit_NamedExpr(self, node):
+        """Visit NamedExpr.
+        Transform:
+            (a := b)
+        Into:
+            (a := <now>.named_expr(<act>, #, <exc>)(<act>, #`a`, 'a', |b|, <mode>))
+        """
+        target = node.target
+        target.name = target.id
+        component_id = self.rewriter.create_code_component(
+            target, Component.NAME, 'w'
+        )
+        self.create_composition(component_id, *self.composition_edge)
+        self.composition_edge = (component_id, Component.S_VALUE)
+        mode = self.mode if hasattr(self, 'mode') else Dependency.DEPENDENCY
+
+        new_node = ast_copy(ast.NamedExpr(target, double_noworkflow(
+            'named_expr',
+            [
+                activation(),
+                ast.Num(component_id),
+                ast.Num(self.rewriter.current_exc_handler)
+            ], [
+                activation(),
+                ast.Num(component_id),
+                ast.Str(target.id),
+                self.rewriter.capture(node.value, mode=Dependency.ASSIGN),
+                ast.Str(mode),
+            ]
+        )), node)
+        new_node.name = pyposast.extract_code(self.rewriter.lcode, node)
+        new_node.code_component_id = component_id
+        return new_node
+
     def visit_Starred(self, node):
         """Visit Starred. Create target expression
         Target of:
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index aad0890..411022e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -528,6 +528,24 @@ class Collector(object):
 
         return value
     
+    def named_expr(self, activation, code_id, exc_handler):
+        """Capture named expression before"""
+        activation.dependencies.append(DependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id,
+        ))
+        return self._named_expr
+
+    def _named_expr(self, activation, code_id, name, value, mode="dependency"):
+        """Capture named expression after. Assign name"""
+        # pylint: disable=too-many-arguments
+        depa = activation.dependencies.pop()
+        if activation.active:
+            activation.context[name] = self.eval_dep(
+                activation, code_id, value, mode, depa
+            )
+        return value
+
     def collect_break_continue_pass(self, activation, pass_id, exc_handler, mode="dependency"):
         """Capture 'break', 'continue' or 'pass' statements"""
         if activation.active:
-- 
2.43.0


From d60eb45cca32b6759d3621ddf1a5926c4b333315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 39/84] fix: relate the target of a with item to the item, not
 to the function that creates it

---
 .../now/collection/prov_definition/component_constants.py       | 2 ++
 .../now/collection/prov_definition/transformer_stmt.py          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/component_constants.py b/capture/noworkflow/now/collection/prov_definition/component_constants.py
index 55c3c6e..fa17998 100644
--- a/capture/noworkflow/now/collection/prov_definition/component_constants.py
+++ b/capture/noworkflow/now/collection/prov_definition/component_constants.py
@@ -238,6 +238,8 @@ M_OP_POS = "*op_pos"
 #  stmt.create_code_component
 S_OPERAND = "operand"
 #  expr.visit_UnaryOp
+S_OPTIONAL_VARS = "optional_vars"
+#  stmt.process_withitem
 M_ORELSE = "*orelse"
 #  stmt.visit_For
 #  stmt.visit_While
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index ec87621..ecd5595 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1095,6 +1095,7 @@ class RewriteAST(ast.NodeTransformer):
         
         if not node.optional_vars:
             return []
+        self.composition_edge = (component_id, Component.S_OPTIONAL_VARS)
         node.optional_vars = rewriter.visit(node.optional_vars)
         return [ast_copy(ast.Expr(noworkflow('assign', [
             activation(),
-- 
2.43.0


From 142b3c5e9c69bc9750a3b883b1b53f48e3bb99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 40/84] fix: record the value that each parameter received

---
 .../collection/prov_execution/collector.py    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 411022e..54dc7b4 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1715,6 +1715,8 @@ class Collector(object):
         if function_def.__name__ in {'__setitem__'} and self.current_assign_dep and len(arguments) == 2:
             arguments.append(self.current_assign_dep)
         
+        matched = {}
+
         def match(arg, param):
             """Create dependency"""
             arg.mode = "argument"
@@ -1723,10 +1725,17 @@ class Collector(object):
             else: 
                 depa = DependencyAware()
                 depa.add(arg)
-                evaluation = self.evaluate_depa(
-                    activation, param.code_id, arg.value, time, depa
-                )
+                if param.name in matched:
+                    # Variable parameters receive many arguments
+                    evaluation = matched[param.name]
+                    arg.reference = False
+                    self.make_dependencies(activation, evaluation, depa)
+                else:
+                    evaluation = self.evaluate_depa(
+                        activation, param.code_id, param.value, time, depa
+                    )
                 arg.mode = "argument"
+            matched[param.name] = evaluation
             activation.context[param.name] = evaluation
 
         # Match args
@@ -1767,7 +1776,9 @@ class Collector(object):
         # Match keywords
         for keyword in keywords:
             param = None
-            if keyword.arg in parameters:
+            if keyword.arg in parameters and not any(
+                    variable and keyword.arg == variable[0]
+                    for variable in (vararg, kwarg)):
                 key = keyword.arg
                 param = parameters[key]
             elif kwarg:
-- 
2.43.0


From 9b14ec0ad476ef38100163e67b7200dc8ee0255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 41/84] fix: do not record executions caused by reading values

---
 .../now/collection/prov_execution/collector.py   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 54dc7b4..7c4d80d 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -106,6 +106,9 @@ class Collector(object):
         self.first_activation.depth = 0
         self.last_activation = self.first_activation
         self.future_activation = []
+
+        # Indicates that the collector is reading the value of an object
+        self.reading_value = False
         self.class_definitions = []
         self.shared_types = {}
 
@@ -137,11 +140,14 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
+        reading_value, self.reading_value = self.reading_value, True
         try:
             return repr_fn(value)
         except Exception:  # pylint: disable=broad-except
             # The script did not ask for this representation
             return object.__repr__(value)
+        finally:
+            self.reading_value = reading_value
 
     def as_is(self, value):
         """Return value without any processing"""
@@ -1414,6 +1420,16 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
+                if self.reading_value:
+                    # The script did not ask for this representation
+                    dry = self.dry_activation(activation)
+                    try:
+                        return function_def(
+                            dry, function_def, args, kwargs,
+                            default_values, defaults, *args, **kwargs
+                        )
+                    finally:
+                        self.last_activation = activation
                 if (
                     activation.active
                     and activation.name != function_def.__name__
-- 
2.43.0


From c34e328eacd97f507d14066d47cd9b06457e63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 42/84] fix: record special methods called by special methods
 with the same name

---
 .../noworkflow/now/collection/prov_execution/collector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7c4d80d..6a69fd9 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1430,10 +1430,10 @@ class Collector(object):
                         )
                     finally:
                         self.last_activation = activation
-                if (
-                    activation.active
-                    and activation.name != function_def.__name__
-                    and activation.func is not new_function_def
+                if activation.active and (
+                    activation.code_block_id != -1 # Running another function
+                    or (activation.name != function_def.__name__
+                        and activation.func is not new_function_def)
                 ): # White box after black box call
                     is_augassign = function_def.__name__ in {
                         '__iadd__', '__isub__', '__imul__', '__imatmul__', '__itruediv__', 
-- 
2.43.0


From d3a0090e62428592b7bf2913de8d37e92de64538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 43/84] fix: do not invoke methods of the script to obtain
 addresses of members

---
 .../collection/prov_execution/collector.py    | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 6a69fd9..12ff097 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -16,7 +16,7 @@ from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
 from functools import wraps
-from types import GeneratorType
+from types import FunctionType, GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
 
@@ -266,10 +266,15 @@ class Collector(object):
             isinstance(vindex, int) and vindex < 0
             and not isinstance(vcontainer, dict)
             and hasattr(type(vcontainer), '__len__')
+            and not isinstance(type(vcontainer).__len__, FunctionType)
         ):
             return len(vcontainer) + vindex
         return vindex
 
+    def address(self, index):
+        """Return the address of the member with a given index or key"""
+        return "[{}]".format(self.get_value(index))
+
     def __getitem__(self, index):
         # pylint: disable=too-many-locals
         operation, subindex = index
@@ -287,7 +292,7 @@ class Collector(object):
             if value_dep is not None:
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
-                addr = "[{}]".format(self.position(vcontainer, vindex))
+                addr = self.address(self.position(vcontainer, vindex))
                 value = vcontainer[vindex]
                 if not activation.active:
                     activation.dependencies.pop()
@@ -312,6 +317,9 @@ class Collector(object):
             is_whitebox_slice = (
                 isinstance(vindex, self.pyslice) and
                 isinstance(vcontainer, (list, tuple)) and
+                not isinstance(type(vcontainer).__len__, FunctionType) and
+                not isinstance(
+                    type(vcontainer).__getitem__, FunctionType) and
                 access == "[]" and
                 value_dep is not None
             )
@@ -375,7 +383,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
 
             if access == "[]":
-                addr = "[{}]".format(self.position(vcontainer, vindex))
+                addr = self.address(self.position(vcontainer, vindex))
                 vcontainer[vindex] = value
             elif access == ".":
                 setattr(vcontainer, vindex, value)
@@ -665,7 +673,7 @@ class Collector(object):
             evaluation = self.eval_dep(activation, code_id, value, mode, depa)
             same = evaluation.same()
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = self.address(key)
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
@@ -765,7 +773,7 @@ class Collector(object):
             dependency.sub_dependencies.extend(depa.dependencies)
             activation.dependencies[-1].add(dependency)
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = self.address(key)
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
@@ -821,7 +829,7 @@ class Collector(object):
             if starred:
                 members = dependency.evaluation.same().members
                 for index, element in enumerate(value):
-                    part = members.get("[{0!r}]".format(index))
+                    part = members.get(self.address(index))
                     if part is None:
                         part = self.evaluate_depa(
                             activation, code_id, element, None,
@@ -864,7 +872,7 @@ class Collector(object):
             if type(value) is dict:  # pylint: disable=unidiomatic-typecheck
                 members = dependency.evaluation.same().members
                 for key, element in value.items():
-                    part = members.get("[{0!r}]".format(key))
+                    part = members.get(self.address(key))
                     if part is None:
                         part = self.evaluate_depa(
                             activation, code_id, element, None,
-- 
2.43.0


From ebb27fa3de8fc17c26af9411d48a4b26275d6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:00 +0000
Subject: [PATCH 44/84] fix: add dependencies of calls made by generators to
 the generators

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 12ff097..2f9f526 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1343,7 +1343,7 @@ class Collector(object):
 
                 # Just add dependency if it is expecting one
                 dependency = Dependency(eva, result, future.dependency_type)
-                self.last_activation.dependencies[-1].add(dependency)
+                parent_activation.dependencies[-1].add(dependency)
                 if activation.generator is not None:
                     activation.generator.evaluation = eva
                     activation.generator.dependency = dependency
@@ -1389,7 +1389,7 @@ class Collector(object):
             dependency.arg = arg
             dependency.kind = kind
 
-            self.last_activation.dependencies[-1].add(dependency)
+            activation.dependencies[-1].add(dependency)
 
         return value
 
-- 
2.43.0


From ff79804b32c6dd2531a0b5e868365d20481e4c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:06 +0000
Subject: [PATCH 45/84] fix: relate executions started by generators to the
 generators

---
 .../collection/prov_execution/collector.py    | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 2f9f526..f65ccd7 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -37,6 +37,13 @@ GENERATOR_TYPES = tuple(
     if hasattr(types, name)
 )
 
+SUSPENDABLE_TYPES = GENERATOR_TYPES + tuple(
+    getattr(types, name) for name in ("CoroutineType",)
+    if hasattr(types, name)
+)
+
+CO_SUSPENDABLE = 0x20 | 0x80 | 0x200 # generators and coroutines
+
 OPEN_MODES = {
     # All
     "O_RDONLY": "r",
@@ -107,6 +114,9 @@ class Collector(object):
         self.last_activation = self.first_activation
         self.future_activation = []
 
+        # Indicates that functions may execute after the end of their calls
+        self.has_suspendable = False
+
         # Indicates that the collector is reading the value of an object
         self.reading_value = False
         self.class_definitions = []
@@ -259,6 +269,27 @@ class Collector(object):
         else:
             return self.simple_member_lookup(collection, addr, value, depa)
 
+    def running_activation(self):
+        """Return the activation that invokes the current function
+
+        Generators and coroutines run after the end of their activations
+        """
+        if not self.has_suspendable:
+            return self.last_activation
+        frame = sys._getframe(2) # pylint: disable=protected-access
+        while frame is not None:
+            code = frame.f_code
+            if code is CALL_CODE:
+                break
+            if '__now_activation__' in code.co_varnames:
+                if code.co_flags & CO_SUSPENDABLE:
+                    return frame.f_locals['__now_activation__']
+                break
+            if '__now_activation__' in code.co_names:
+                break
+            frame = frame.f_back
+        return self.last_activation
+
     def position(self, vcontainer, vindex):
         """Return the non-negative position of an index in a sequence"""
         # pylint: disable=no-self-use
@@ -1427,7 +1458,7 @@ class Collector(object):
                 """Capture variables
                 Pass __now_activation__ as parameter
                 """
-                activation = self.last_activation
+                activation = self.running_activation()
                 if self.reading_value:
                     # The script did not ask for this representation
                     dry = self.dry_activation(activation)
@@ -1437,7 +1468,7 @@ class Collector(object):
                             default_values, defaults, *args, **kwargs
                         )
                     finally:
-                        self.last_activation = activation
+                        self.last_activation = dry.last_activation
                 if activation.active and (
                     activation.code_block_id != -1 # Running another function
                     or (activation.name != function_def.__name__
@@ -1524,6 +1555,8 @@ class Collector(object):
                     self.make_dependencies(activation, evaluation, depa)
                     bound_dependency.mode = old_mode
                     
+                if isinstance(result, SUSPENDABLE_TYPES):
+                    self.has_suspendable = True
                 if isinstance(result, GENERATOR_TYPES):
                     activation.generator = Generator()
                     activation.generator.value = result
@@ -2159,3 +2192,6 @@ class Collector(object):
             Trial.fast_update(tid, metascript.main_id, datetime.now(), status)
 
         self.last_partial_save = now
+
+
+CALL_CODE = Collector._call.__code__ # pylint: disable=protected-access
-- 
2.43.0


From 3a5fa70bb5466dc3b2105b23e6ac729389e7fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:39 +0000
Subject: [PATCH 46/84] fix: forget calls that could not start due to errors in
 their arguments

---
 .../noworkflow/now/collection/prov_execution/collector.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index f65ccd7..a086139 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -518,10 +518,18 @@ class Collector(object):
         exc_handler = exc_handler or float('inf')
         code_id = None
         deps = activation.dependencies
+        canceled = set()
         while deps and exc_handler >= deps[-1].exc_handler:
             depa = deps.pop()
+            canceled.add(id(depa))
             code_id = code_id or depa.code_id
 
+        # Calls that could not start due to errors in their arguments
+        self.future_activation = [
+            future for future in self.future_activation
+            if id(future.dependencies[0]) not in canceled
+        ]
+
         self.exceptions.add(self.trial_id, exc, activation.id)
 
     def exception(self, activation, code_id, exc_handler, name, value):
-- 
2.43.0


From ecdc0ef08c93508d50820004186d55b5644c1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:30 +0000
Subject: [PATCH 47/84] fix: hide names of the collector from the creation of
 classes

---
 .../prov_definition/transformer_stmt.py       | 25 +++++++++++++++++--
 .../collection/prov_execution/collector.py    | 17 ++++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index ecd5595..d3ec1b8 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -551,7 +551,12 @@ class RewriteAST(ast.NodeTransformer):
         @<now>.class_def(<act>)(<act>, <block_id>, <parameterss>)
         class c(*<now>.class_bases(<act>), **<now>.class_keywords(<act>)):
             __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
-            ...
+            try:
+                ...
+            except:
+                <now>.class_exception(<act>, <exc>)
+                raise
+            <now>.end_class(<act>)
         """
         # pylint: disable=invalid-name
         # ToDo: collect dependencies
@@ -618,7 +623,23 @@ class RewriteAST(ast.NodeTransformer):
                         ast.Num(class_id)
                     ])
                 ), new_node),
-            ] + self.process_class_body(new_node.name, old_body, class_id)
+            ]
+            new_body = self.process_class_body(
+                new_node.name, old_body, class_id
+            )
+            if new_body:
+                body.append(ast_copy(try_def(new_body, [
+                    ast_copy(ast.ExceptHandler(None, None, [
+                        ast_copy(ast.Expr(noworkflow(
+                            'class_exception',
+                            [activation(), ast.Num(self.current_exc_handler)]
+                        )), new_node),
+                        ast_copy(ast.Raise(), new_node)
+                    ]), new_node)
+                ], [], [], new_node), new_node))
+            body.append(ast_copy(ast.Expr(noworkflow(
+                'end_class', [activation()]
+            )), new_node))
 
             if hasattr(new_node, 'keywords'): # Python 3
                 # The bases and keywords were evaluated by <now>.class_def
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a086139..1a746ec 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1621,6 +1621,20 @@ class Collector(object):
         definition.activation = activation
         return activation
 
+    def end_class(self, activation):
+        """Remove names of the collector at the end of the class body"""
+        namespace = sys._getframe(1).f_locals # pylint: disable=protected-access
+        for name in list(namespace):
+            if isinstance(name, str) and name.startswith('__now_'):
+                del namespace[name]
+        # The class itself is created by the function that defines it
+        self.last_activation = activation.last_activation
+
+    def class_exception(self, activation, exc_handler):
+        """Close the activation of a class body that fails"""
+        self.collect_exception(activation, exc_handler)
+        self.close_activation(activation, None, None)
+
     def class_def(self, activation, code_id, exc_handler):
         """Decorate class definition.
         Start collecting base dependencies
@@ -1654,9 +1668,6 @@ class Collector(object):
         def dec(class_def):
             """Finish the activation of the class body"""
             activation = definition.activation
-            for name in ('__now_activation__', '__now__assign__'):
-                if isinstance(class_def, type) and name in vars(class_def):
-                    type.__delattr__(class_def, name)
             evaluation = activation.evaluation
             closure_activation = definition.closure
             block_id = activation.code_block_id
-- 
2.43.0


From e03be7f0fd5ed1b507e3e5c3df4c6108a7b6ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 48/84] fix: record values of classes and of calls to
 generators that return

---
 .../collection/prov_execution/collector.py    | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 1a746ec..aa519af 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -143,13 +143,10 @@ class Collector(object):
     def get_value(self, value):
         """Get value representation from value"""
         repr_fn = repr
-        if type(value) is not type:
-            try:
-                the_repr = object.__getattribute__(value, '__repr__')
-                original_def = getattr(the_repr, 'original_def')
-                repr_fn = original_def
-            except AttributeError:
-                pass
+        try:
+            repr_fn = type(value).__repr__.original_def
+        except AttributeError:
+            pass
         reading_value, self.reading_value = self.reading_value, True
         try:
             return repr_fn(value)
@@ -1899,9 +1896,11 @@ class Collector(object):
         """Capture return after"""
         dependency_aware = activation.dependencies.pop()
         evaluation = activation.evaluation
-        reference = self.find_reference_dependency(value, dependency_aware)
-        evaluation.repr = self.get_value(value)
-        evaluation.set_reference(reference)
+        if evaluation.checkpoint < 0:
+            reference = self.find_reference_dependency(value, dependency_aware)
+            evaluation.repr = self.get_value(value)
+            evaluation.set_reference(reference)
+        # else: generators and coroutines return after the end of their calls
         self.make_dependencies(activation, evaluation, dependency_aware)
         return value
 
-- 
2.43.0


From d308dcf40b08630a67cc6ee9e71234d031777551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 49/84] fix: evaluate conditional expressions in the scope of
 the script

---
 .../prov_definition/transformer_expr.py       | 73 +++++++++----------
 .../collection/prov_execution/collector.py    | 35 ++++-----
 .../collection/prov_execution/structures.py   |  1 +
 3 files changed, 53 insertions(+), 56 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index cd8e25f..eab756b 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -319,47 +319,46 @@ class RewriteDependencies(ast.NodeTransformer):
         Transform:
             a if b else c
         Into:
-            <now>.ifexp(
-                <act>, #, <exc>,
-                lambda:
-                    |a| if <now>.condition(<act>, <exc>)(<act>, |b|) else |c|
+            <now>.ifexp(<act>, #, <exc>)(
+                <act>, #,
+                |a| if <now>.condition(<act>, <exc>)(<act>, |b|) else |c|,
+                <mode>
             )
         """
-        with self.rewriter.exc_handler():
-            new_node = copy(node)
-            node.name = pyposast.extract_code(self.rewriter.lcode, node)
-            id_ = self.rewriter.create_code_component(node, Component.IFEXP, 'r')
-            self.create_composition(id_, *self.composition_edge)
-
-            self.composition_edge = (id_, Component.S_TEST)
-            new_node.test = ast_copy(double_noworkflow(
-                'condition',
-                [
-                    activation(),
-                    ast.Num(self.rewriter.current_exc_handler)
-                ], [
-                    activation(),
-                    self.rewriter.capture(new_node.test, mode=Dependency.CONDITION)
-                ]
-            ), node)
-            self.composition_edge = (id_, Component.S_BODY)
-            new_node.body = self.rewriter.capture(new_node.body, mode=Dependency.USE)
-            self.composition_edge = (id_, Component.S_ORELSE)
-            new_node.orelse = self.rewriter.capture(new_node.orelse, mode=Dependency.USE)
-
-            lambda_node = nlambda(body=new_node)
+        new_node = copy(node)
+        node.name = pyposast.extract_code(self.rewriter.lcode, node)
+        id_ = self.rewriter.create_code_component(node, Component.IFEXP, 'r')
+        self.create_composition(id_, *self.composition_edge)
 
+        self.composition_edge = (id_, Component.S_TEST)
+        new_node.test = ast_copy(double_noworkflow(
+            'condition',
+            [
+                activation(),
+                ast.Num(self.rewriter.current_exc_handler)
+            ], [
+                activation(),
+                self.rewriter.capture(new_node.test, mode=Dependency.CONDITION)
+            ]
+        ), node)
+        self.composition_edge = (id_, Component.S_BODY)
+        new_node.body = self.rewriter.capture(new_node.body, mode=Dependency.USE)
+        self.composition_edge = (id_, Component.S_ORELSE)
+        new_node.orelse = self.rewriter.capture(new_node.orelse, mode=Dependency.USE)
 
-            return ast_copy(noworkflow(
-                'ifexp',
-                [
-                    activation(),
-                    ast.Num(id_),
-                    ast.Num(self.rewriter.current_exc_handler),
-                    lambda_node,
-                    ast.Str(self.mode)
-                ]
-            ), node)
+        return ast_copy(double_noworkflow(
+            'ifexp',
+            [
+                activation(),
+                ast.Num(id_),
+                ast.Num(self.rewriter.current_exc_handler),
+            ], [
+                activation(),
+                ast.Num(id_),
+                new_node,
+                ast.Str(self.mode)
+            ]
+        ), node)
 
     def visit_Dict(self, node):
         """Visit Dict.
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index aa519af..7ec18a9 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -519,6 +519,8 @@ class Collector(object):
         while deps and exc_handler >= deps[-1].exc_handler:
             depa = deps.pop()
             canceled.add(id(depa))
+            if depa.condition_mark is not None:
+                del activation.conditions[depa.condition_mark:]
             code_id = code_id or depa.code_id
 
         # Calls that could not start due to errors in their arguments
@@ -2038,25 +2040,20 @@ class Collector(object):
         # pylint: disable=no-self-use
         return value
 
-    def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
-        """Collect ifexp"""
-        # pylint: disable=too-many-arguments
-        self.prepare_condition(activation)
-        try:
-            activation.dependencies.append(DependencyAware(
-                exc_handler=exc_handler,
-                code_id=code_id
-            ))
-            value = if_lambda()
-            depa = activation.dependencies.pop()
-            if activation.active:
-                self.eval_dep(activation, code_id, value, mode, depa)
-            return value
-        except:
-            self.collect_exception(activation, exc_handler)
-            raise
-        finally:
-            self.finish_condition(activation)
+    def ifexp(self, activation, code_id, exc_handler):
+        """Collect ifexp before"""
+        depa = DependencyAware(exc_handler=exc_handler, code_id=code_id)
+        depa.condition_mark = len(activation.conditions)
+        activation.dependencies.append(depa)
+        return self._ifexp
+
+    def _ifexp(self, activation, code_id, value, mode):
+        """Collect ifexp after"""
+        depa = activation.dependencies.pop()
+        if activation.active:
+            self.eval_dep(activation, code_id, value, mode, depa)
+        del activation.conditions[depa.condition_mark:]
+        return value
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
         """Collect py2 `repr`"""
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index ff914f8..1291deb 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -68,6 +68,7 @@ class DependencyAware(object):
         self.exc_handler = exc_handler
         self.code_id = code_id
         self.maybe_activation = maybe_activation or set()
+        self.condition_mark = None
 
         self.active = active
 
-- 
2.43.0


From 453727cf77b4e38c9f877bc2cc20bf9b715ee829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:23 +0000
Subject: [PATCH 50/84] fix: remove the conditions of comprehensions that fail

---
 .../now/collection/prov_execution/collector.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7ec18a9..15b15e1 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -697,10 +697,12 @@ class Collector(object):
 
     def dict(self, activation, code_id, exc_handler):
         """Capture dict before"""
-        activation.dependencies.append(CollectionDependencyAware(
+        depa = CollectionDependencyAware(
             exc_handler=exc_handler,
             code_id=code_id,
-        ))
+        )
+        depa.condition_mark = len(activation.conditions)
+        activation.dependencies.append(depa)
         return self._dict
 
     def _dict(self, activation, code_id, value, mode="collection"):
@@ -794,10 +796,12 @@ class Collector(object):
 
     def list(self, activation, code_id, exc_handler):
         """Capture list before"""
-        activation.dependencies.append(CollectionDependencyAware(
+        depa = CollectionDependencyAware(
             exc_handler=exc_handler,
             code_id=code_id,
-        ))
+        )
+        depa.condition_mark = len(activation.conditions)
+        activation.dependencies.append(depa)
         return self._list
 
     def _list(self, activation, code_id, value, mode="collection"):
@@ -829,10 +833,12 @@ class Collector(object):
 
     def set(self, activation, code_id, exc_handler):
         """Capture list before"""
-        activation.dependencies.append(CollectionDependencyAware(
+        depa = CollectionDependencyAware(
             exc_handler=exc_handler,
             code_id=code_id,
-        ))
+        )
+        depa.condition_mark = len(activation.conditions)
+        activation.dependencies.append(depa)
         return self._list
 
     def item(self, activation, code_id, exc_handler):
-- 
2.43.0


From a31bd76dab3d037d825e35c3dd5cc485c19b6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:41 +0000
Subject: [PATCH 51/84] fix: assign targets of with statements before
 evaluating the next item

---
 .../prov_definition/transformer_stmt.py       | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index d3ec1b8..3401c63 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1130,15 +1130,15 @@ class RewriteAST(ast.NodeTransformer):
             with cm1 as a, cm2 as b, cm3 as c, cm4:
                 ...
         Into:
-            with <now>.withitem(<act>, #1, <exc>)(<act>, <iexc>, True, |cm1|) as a,
-                 <now>.withitem(<act>, #2, <exc>)(<act>, <iexc>, True, |cm2|) as b,
-                 <now>.withitem(<act>, #3, <exc>)(<act>, <iexc>, True, |cm3|) as c,
-                 <now>.withitem(<act>, #4, <exc>)(<act>, <iexc>, False, |cm4|):
-                <now>.assign(<act>, <now>.pop_assign(<act>), target(c))
-                <now>.assign(<act>, <now>.pop_assign(<act>), target(b))
+            with <now>.withitem(<act>, #1, <exc>)(<act>, <iexc>, True, |cm1|) as a:
                 <now>.assign(<act>, <now>.pop_assign(<act>), target(a))
-                ...
-        
+                with <now>.withitem(<act>, #2, <exc>)(<act>, <iexc>, True, |cm2|) as b:
+                    <now>.assign(<act>, <now>.pop_assign(<act>), target(b))
+                    with <now>.withitem(<act>, #3, <exc>)(<act>, <iexc>, True, |cm3|) as c:
+                        <now>.assign(<act>, <now>.pop_assign(<act>), target(c))
+                        with <now>.withitem(<act>, #4, <exc>)(<act>, <iexc>, False, |cm4|):
+                            ...
+
         """
         # pylint: disable=invalid-name
         # ToDo: collect with
@@ -1147,19 +1147,27 @@ class RewriteAST(ast.NodeTransformer):
         old_composition_edge = self.composition_edge
 
         new_node = copy(node)
-        extra_lines = []
         with self.exc_handler() as internal_handler:
             new_node.body = self.process_body(new_node.body, with_id)
         if PY3:
+            items_lines = []
             for index, item in enumerate(new_node.items):
                 self.composition_edge = (with_id, Component.M_ITEMS, index)
                 withitem_id = self.create_ast_component(item, Component.WITHITEM)
                 self.create_composition(withitem_id, *self.composition_edge)
-                extra_lines.extend(self.process_withitem(
+                items_lines.append((item, self.process_withitem(
                     item, withitem_id, internal_handler
-                ))
+                )))
+            # Nest items to assign each target before the next item
+            while len(items_lines) > 1:
+                item, extra_lines = items_lines.pop()
+                new_node.body = [ast_copy(
+                    ast.With([item], extra_lines + new_node.body), node
+                )]
+            item, extra_lines = items_lines[0]
+            new_node.items = [item]
         else:
-            extra_lines.extend(self.process_withitem(new_node, with_id, internal_handler))
+            extra_lines = self.process_withitem(new_node, with_id, internal_handler)
         new_node.body = extra_lines + new_node.body
 
         self.composition_edge = old_composition_edge
@@ -1393,7 +1401,6 @@ class RewriteAST(ast.NodeTransformer):
     def visit_Global(self, node):
         """Visit Global"""
         # pylint: disable=invalid-name
-        # ToDo: collect global
         global_id = self.create_ast_component(node, Component.GLOBAL)
         self.create_composition(global_id, *self.composition_edge)
         return node
-- 
2.43.0


From 065abeeb9eacf2012e2f567de20e7d2588fcdfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:41 +0000
Subject: [PATCH 52/84] fix: resolve names by the scope rules (global,
 nonlocal, class)

---
 .../prov_definition/transformer_stmt.py       | 18 ++++++-
 .../collection/prov_execution/collector.py    | 48 +++++++++++++++----
 .../now/persistence/lightweight/activation.py |  6 ++-
 3 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 3401c63..3834aee 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -252,6 +252,10 @@ class RewriteAST(ast.NodeTransformer):
                     old_fd.name = "__now_original_" + stmt.name
                     new_body.append(old_fd)
                 new_body.append(self.visit(stmt))
+            elif isinstance(stmt, ast.Global):
+                self.visit_scope(new_body, stmt, 'global_names')
+            elif PY3 and isinstance(stmt, ast.Nonlocal):
+                self.visit_scope(new_body, stmt, 'nonlocal_names')
             elif isinstance(stmt, ast.Break):
                 self.visit_break(new_body, stmt)
             elif isinstance(stmt, ast.Continue):
@@ -1408,11 +1412,23 @@ class RewriteAST(ast.NodeTransformer):
     def visit_Nonlocal(self, node):
         """Visit Nonloca"""
         # pylint: disable=invalid-name
-        # ToDo: collect nonlocal
         nonlocal_id = self.create_ast_component(node, Component.NONLOCAL)
         self.create_composition(nonlocal_id, *self.composition_edge)
         return node
 
+    def visit_scope(self, new_body, stmt, function):
+        """Visit global or nonlocal
+        Transform:
+            global a, b
+        Into:
+            global a, b
+            <now>.global_names(<act>, ['a', 'b'])
+        """
+        new_body.append(self.visit(stmt))
+        new_body.append(ast_copy(ast.Expr(noworkflow(function, [
+            activation(), ast.List([ast.Str(name) for name in stmt.names], L())
+        ])), stmt))
+
     def visit_Expr(self, node):
         """Visit Expr. Capture it"""
         # pylint: disable=invalid-name
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 15b15e1..c829472 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -537,14 +537,43 @@ class Collector(object):
         # ToDo: relate evaluation to exception
         evaluation = self.evaluate_depa(activation, code_id, value, None)
         if name:
-            activation.context[name] = evaluation
+            self.bind(activation, name, evaluation)
+
+    def global_names(self, activation, names):
+        """Associate names of a global statement to the module activation"""
+        # pylint: disable=no-self-use
+        scope = activation
+        while scope.closure:
+            scope = scope.closure
+        for name in names:
+            activation.scopes[name] = scope
+
+    def nonlocal_names(self, activation, names):
+        """Associate names of a nonlocal statement to enclosing activations"""
+        # pylint: disable=no-self-use
+        for name in names:
+            scope = activation.closure
+            while scope:
+                scope = scope.scopes.get(name, scope)
+                if not scope.is_class and name in scope.context:
+                    activation.scopes[name] = scope
+                    break
+                scope = scope.closure
+
+    def bind(self, activation, name, evaluation):
+        """Bind name to evaluation in the scope of the name"""
+        # pylint: disable=no-self-use
+        activation.scopes.get(name, activation).context[name] = evaluation
 
     def lookup(self, activation, name):
         """Lookup for variable name"""
+        start = activation
         while activation:
-            evaluation = activation.context.get(name, None)
-            if evaluation:
-                return evaluation
+            activation = activation.scopes.get(name, activation)
+            if activation is start or not activation.is_class:
+                evaluation = activation.context.get(name, None)
+                if evaluation:
+                    return evaluation
             activation = activation.closure
         evaluation = self.global_evaluations.get(name, None)
         if evaluation:
@@ -593,9 +622,9 @@ class Collector(object):
         # pylint: disable=too-many-arguments
         depa = activation.dependencies.pop()
         if activation.active:
-            activation.context[name] = self.eval_dep(
+            self.bind(activation, name, self.eval_dep(
                 activation, code_id, value, mode, depa
-            )
+            ))
         return value
 
     def collect_break_continue_pass(self, activation, pass_id, exc_handler, mode="dependency"):
@@ -1125,7 +1154,7 @@ class Collector(object):
         code_id, name, value = target_info
         eva = self.evaluate_depa(activation, code_id, value, checkpoint, depa)
         if name:
-            activation.context[name] = eva
+            self.bind(activation, name, eva)
         return 1
 
     def assign_access(self, activation, assign, target_info, depa, back):
@@ -1607,7 +1636,7 @@ class Collector(object):
             dependency_aware = activation.dependencies.pop()
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
-                activation.context[function_name] = dependency.evaluation
+                self.bind(activation, function_name, dependency.evaluation)
             if original_def is not None:
                 function_def.original_def = original_def
             return function_def
@@ -1623,6 +1652,7 @@ class Collector(object):
             last_activation
         )
         activation.closure = last_activation
+        activation.is_class = True
         definition.activation = activation
         return activation
 
@@ -1710,7 +1740,7 @@ class Collector(object):
             dependency_aware = activation.dependencies.pop()
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
-                activation.context[class_name] = dependency.evaluation
+                self.bind(activation, class_name, dependency.evaluation)
                 self.shared_types[class_def] = dependency.evaluation
             return class_def
         return dec
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 7aee85a..8e1c3de 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -49,7 +49,7 @@ class ActivationLW(BaseLW):
         ["file_accesses", "context", "conditions", "condition_marks", "class_definitions",
          "permanent_conditions", "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
-         "bound_dependency", "func_evaluation", "iscell"]
+         "bound_dependency", "func_evaluation", "iscell", "scopes", "is_class"]
     )
     nullable = {"code_block_id"}
     model = Activation
@@ -73,8 +73,12 @@ class ActivationLW(BaseLW):
 
         # Variable context. Used in the slicing lookup
         self.context = {}
+        # Activations that own names of global and nonlocal statements
+        self.scopes = {}
         # Closure activation
         self.closure = None
+        # The context of classes is not visible in enclosed functions
+        self.is_class = False
         # Parent activation
         self.parent = None
         self.last_activation = None
-- 
2.43.0


From 5f4c7294ff682fad305671c0eb5e29b556588be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:06 +0000
Subject: [PATCH 53/84] fix: relate generators to the items they create

---
 .../now/collection/prov_execution/collector.py       | 12 ++++++++++--
 .../now/collection/prov_execution/structures.py      |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index c829472..b246a4f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -964,7 +964,7 @@ class Collector(object):
                 exc_handler=exc_handler,
                 code_id=code_id,
             ))
-            gen = Generator()
+            gen = Generator(lazy=True)
             value = lvalue(gen)
         except:
             self.collect_exception(activation, exc_handler)
@@ -1001,6 +1001,14 @@ class Collector(object):
                 )
                 dependency = Dependency(evaluation, value, "item")
             checkpoint = self.time()
+            if generator.lazy and generator.evaluation:
+                # The generator may be consumed by functions without provenance
+                self.dependencies.add(
+                    self.trial_id, generator.evaluation.activation_id,
+                    generator.evaluation.id, dependency.activation_id,
+                    dependency.evaluation_id, "item", dependency.reference,
+                    None, None, None
+                )
             if activation.assignments:
                 assign = activation.assignments[-1]
                 assign.generators[id(generator.value)].append(
@@ -1600,7 +1608,7 @@ class Collector(object):
                 if isinstance(result, SUSPENDABLE_TYPES):
                     self.has_suspendable = True
                 if isinstance(result, GENERATOR_TYPES):
-                    activation.generator = Generator()
+                    activation.generator = Generator(lazy=True)
                     activation.generator.value = result
                 return result
             if default_values[0]:
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1291deb..487a465 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -140,7 +140,9 @@ class DependencyAware(object):
 
 class Generator(object):
     """Represent a generator"""
-    def __init__(self):
+    def __init__(self, lazy=False):
+        # The elements of lazy generators are created after the generator
+        self.lazy = lazy
         self.value = None
         self.evaluation = None
         self.dependency = None
-- 
2.43.0


From 6b6b527ecd165eed59d2444b0881575f611f2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:50 +0000
Subject: [PATCH 54/84] fix: relate properties to objects and keyword dicts to
 parameters

---
 .../collection/prov_execution/collector.py    | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b246a4f..b11fe7c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -13,6 +13,7 @@ import inspect
 import types
 
 from collections import OrderedDict
+from contextlib import contextmanager
 from copy import copy
 from datetime import datetime, timedelta
 from functools import wraps
@@ -131,6 +132,8 @@ class Collector(object):
 
         # attribute<->self dependency
         self.current_attr = None
+        # Container of the attribute being accessed
+        self.accessed = None
         # item<->key dependency
         self.current_item = None
         # assign attribute/value
@@ -299,6 +302,17 @@ class Collector(object):
             return len(vcontainer) + vindex
         return vindex
 
+    @contextmanager
+    def accessing(self, value_dep, container):
+        """Relate the methods executed by an access to its container"""
+        old_accessed, self.accessed = self.accessed, None
+        if value_dep is not None:
+            self.accessed = Dependency(value_dep.evaluation, container, "bound")
+        try:
+            yield
+        finally:
+            self.accessed = old_accessed
+
     def address(self, index):
         """Return the address of the member with a given index or key"""
         return "[{}]".format(self.get_value(index))
@@ -331,7 +345,8 @@ class Collector(object):
 
             elif access == ".":
                 addr = ".{}".format(vindex)
-                value = getattr(vcontainer, vindex)
+                with self.accessing(value_dep, vcontainer):
+                    value = getattr(vcontainer, vindex)
                 if not activation.active:
                     activation.dependencies.pop()
                     return value
@@ -414,7 +429,8 @@ class Collector(object):
                 addr = self.address(self.position(vcontainer, vindex))
                 vcontainer[vindex] = value
             elif access == ".":
-                setattr(vcontainer, vindex, value)
+                with self.accessing(value_dep, vcontainer):
+                    setattr(vcontainer, vindex, value)
                 addr = ".{}".format(vindex)
             activation.dependencies.pop()
 
@@ -1570,6 +1586,14 @@ class Collector(object):
                         '__getitem__', '__setitem__', '__missing__'
                     }:
                         future.bound_dependency = self.current_attr or True
+                    elif self.accessed and args and args[0] is self.accessed.value:
+                        # Properties
+                        future.bound_dependency, self.accessed = self.accessed, None
+                        future.dependencies[0].dependencies = []
+                        future.dependencies[0].extra_dependencies = []
+                        if len(args) > 1 and self.current_assign_dep:
+                            future.dependencies[0].add(self.current_assign_dep)
+                            self.current_assign_dep.kind = "argument"
 
                     result = _call(*args, **kwargs)
                     if function_def.__name__ == "__enter__" and activation.assignments:
@@ -1893,14 +1917,15 @@ class Collector(object):
             parameters[vararg[0]].filled = True
 
         # Match keywords
+        variable_names = {
+            variable[0] for variable in (vararg, kwarg) if variable
+        }
         for keyword in keywords:
             param = None
-            if keyword.arg in parameters and not any(
-                    variable and keyword.arg == variable[0]
-                    for variable in (vararg, kwarg)):
+            if keyword.arg in parameters and keyword.arg not in variable_names:
                 key = keyword.arg
                 param = parameters[key]
-            elif kwarg:
+            elif kwarg and keyword.arg != "**":
                 key = kwarg[0]
                 param = parameters[key]
             if param is not None:
@@ -1908,9 +1933,11 @@ class Collector(object):
                 new_kwargs[key] = keyword.value
                 param.filled = True
             elif keyword.arg == "**":
-                for key in viewkeys(keyword.value):
-                    if key in parameters:
-                        param = parameters[key]
+                for key in keyword.value.keys():
+                    param = parameters.get(key)
+                    if param is None or key in variable_names:
+                        param = parameters[kwarg[0]] if kwarg else None
+                    if param is not None:
                         match(keyword, param)
                         new_kwargs[key] = keyword.value
                         param.filled = True
-- 
2.43.0


From 4b71bf5a5a07ebf0c712a2c7f11eac7b709fa4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 55/84] fix: look up parenthesized names

---
 .../now/collection/prov_definition/transformer_expr.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index eab756b..9789faa 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -1255,7 +1255,7 @@ class RewriteDependencies(ast.NodeTransformer):
         node.target_expr = ast.Tuple([
             ast.Tuple([
                 ast.Num(id_),
-                ast.Str(pyposast.extract_code(self.rewriter.lcode, node)),
+                ast.Str(node.id),
                 ast.Name(node.id, L())
             ], L()),
             ast.Str('single')
@@ -1264,7 +1264,7 @@ class RewriteDependencies(ast.NodeTransformer):
             result = ast_copy(noworkflow('name', [
                 activation(), 
                 ast.Num(id_),
-                ast.Str(pyposast.extract_code(self.rewriter.lcode, node)),
+                ast.Str(node.id),
                 node,
                 ast.Str(self.mode)]
             ), node)
-- 
2.43.0


From 68a3efa8be14e9151aed2e1c96ade3c8a6c48fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:52 +0000
Subject: [PATCH 56/84] fix: assign only the result of __enter__ to targets of
 with statements

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b11fe7c..a2fc275 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1545,6 +1545,7 @@ class Collector(object):
                         '__ifloordiv__', '__imod__', '__ipow__', '__ilshift__', '__irshift__', 
                         '__iand__', '__ixor__', '__ior__',
                     } and activation.assignments
+                    previous = len(self.last_activation.dependencies[-1].dependencies)
                     _call = self.call(
                         activation, block_id, defaults.exc_handler, new_function_def, 'internal'
                     )
@@ -1600,7 +1601,7 @@ class Collector(object):
                         # ToDo: check the proper __enter__ assignment
                         try:
                             activation.assignments[-1].dependency.dependencies.extend(
-                                self.last_activation.dependencies[-1].dependencies
+                                self.last_activation.dependencies[-1].dependencies[previous:]
                             )
                         except AttributeError:
                             pass
-- 
2.43.0


From eb90bdee0d3209916adc4be43a12a707f7837032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 57/84] fix: keep the members of returned collections in a
 single evaluation

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a2fc275..9a151ce 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -493,7 +493,10 @@ class Collector(object):
         evaluation = activation.evaluation
         evaluation.checkpoint = self.time()
         evaluation.repr = self.get_value(value)
-        evaluation.set_reference(reference)
+        if (reference is not None or issubclass(type(value), IMMUTABLE)
+                or activation.name == '__new__'):
+            evaluation.set_reference(reference)
+        # Otherwise, keep the returned collection as the owner of its members
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
-- 
2.43.0


From 7e0775f4a5fe77a0b6d131bff869f9571ef8ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:26 +0000
Subject: [PATCH 58/84] fix: record the mode and the contents of accessed files

---
 .../collection/prov_execution/collector.py    | 83 ++++++++++++-------
 .../persistence/lightweight/file_access.py    |  4 +-
 2 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 9a151ce..4553d68 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -165,49 +165,78 @@ class Collector(object):
 
     def new_open(self, old_open, osopen=False):
         """Wrap the open builtin function to register file access"""
-        def open(name, *args, **kwargs):  # pylint: disable=redefined-builtin
+        # Positions of the arguments
+        parameters = {
+            content.codecs_open: ("filename", "mode", None, None, "buffering"),
+            content.os_open: ("path", "flags"),
+        }.get(old_open, ("file", "mode", "buffering"))
+
+        def open(*args, **kwargs):  # pylint: disable=redefined-builtin
             """Open file and add it to file_accesses"""
+            arguments = dict(zip(parameters, args))
+            arguments.update(
+                (key, kwargs[key]) for key in parameters if key in kwargs
+            )
+            name = arguments.get(parameters[0])
             if content.should_use_safe_open():
-                return old_open(name, *args, **kwargs)
-            if isinstance(name, int):
+                return old_open(*args, **kwargs)
+            if not isinstance(name, (str, bytes)) and not hasattr(name, '__fspath__'):
                 # ToDo: support file descriptor
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
             activation = self.last_activation
             while activation and not activation.active:
                 activation = activation.parent
 
             if not activation:
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
+            name = os.fsdecode(name)
             # Create a file access object with default values
             file_access = self.file_accesses.add_object(
                 self.trial_id, name, self.get_time()
             )
-            if os.path.exists(name):
-                # Read previous content if file exists
-                with content.std_open(name, "rb") as fil:
-                    file_access.content_hash_before = content.put(fil.read(), name)
+            # Read previous content if file exists
+            file_access.content_hash_before = self.put_file(name)
             file_access.activation_id = activation.id
-            # Update with the informed keyword arguments (mode / buffering)
-            file_access.update(kwargs)
-            # Update with the informed positional arguments
-            if len(args) > 1:
-                file_access.buffering = args[1]
-            elif args:
-                mode = args[0]
-                if osopen:
-                    mode = ""
-                    for key, value in viewitems(OPEN_MODES):
-                        flag = getattr(os, key, 0)
-                        if args[0] & flag:
-                            value = value or "({})".format(key)
-                            mode += value
-
+            # Update with the informed arguments (mode / buffering)
+            if arguments.get("mode") is not None:
+                file_access.mode = arguments["mode"]
+            if arguments.get("buffering") is not None:
+                file_access.buffering = arguments["buffering"]
+            if osopen and isinstance(arguments.get("flags"), int):
+                flags = arguments["flags"]
+                mode = "" if flags & (os.O_WRONLY | os.O_RDWR) else "r"
+                for key, value in viewitems(OPEN_MODES):
+                    flag = getattr(os, key, 0)
+                    if flags & flag:
+                        value = value or "({})".format(key)
+                        mode += value
                 file_access.mode = mode
+            # The file is available until the end of the function that opens it
+            while activation.parent and activation.parent.parent and (
+                    activation.code_block_id == -1
+                    or activation.evaluation.checkpoint >= 0):
+                activation = activation.parent
+            file_access.path = os.path.abspath(name)
             activation.file_accesses.append(file_access)
-            return old_open(name, *args, **kwargs)
+            with content.use_safe_open():
+                # codecs.open invokes other open function
+                return old_open(*args, **kwargs)
 
         return open
 
+    def put_file(self, name):
+        """Put file content in the content database. Return hash"""
+        # pylint: disable=no-self-use
+        if not os.path.isfile(name):
+            # Do not read directories or special files
+            return None
+        try:
+            with content.std_open(name, "rb") as fil:
+                data = fil.read()
+        except (IOError, OSError):
+            return None
+        return content.put(data, name)
+
     def augaccess(self, activation, access):
         """Repeat access depa.
         Propagate this dependency"""
@@ -500,9 +529,7 @@ class Collector(object):
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
-            if os.path.exists(file_access.name):
-                with content.std_open(file_access.name, "rb") as fil:
-                    file_access.content_hash_after = content.put(fil.read(), file_access.name)
+            file_access.content_hash_after = self.put_file(file_access.path)
             file_access.done = True
 
     def start_script(self, module_name, code_component_id, iscell):
diff --git a/capture/noworkflow/now/persistence/lightweight/file_access.py b/capture/noworkflow/now/persistence/lightweight/file_access.py
index 36d2d3d..c7219ba 100644
--- a/capture/noworkflow/now/persistence/lightweight/file_access.py
+++ b/capture/noworkflow/now/persistence/lightweight/file_access.py
@@ -21,7 +21,7 @@ class FileAccessLW(BaseLW):
         ["trial_id", "id", "name", "mode", "buffering",
          "content_hash_before", "content_hash_after",
          "checkpoint", "activation_id"],
-        ["done"]
+        ["done", "path"]
     )
     nullable = {"activation_id"}
     model = FileAccess
@@ -40,6 +40,8 @@ class FileAccessLW(BaseLW):
         self.checkpoint = checkpoint
         self.activation_id = activation_id
         self.done = False
+        # Absolute path. The current directory may change during the access
+        self.path = self.name
 
     def update(self, variables):
         """Update file access with dict"""
-- 
2.43.0


From bb2f7bc00682bd49f0f861e7b3a29cb1cdd069cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 59/84] fix: search modules in the directory of the script,
 even with --dir

---
 capture/noworkflow/now/collection/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/metadata.py b/capture/noworkflow/now/collection/metadata.py
index c53e67c..b3f49a1 100644
--- a/capture/noworkflow/now/collection/metadata.py
+++ b/capture/noworkflow/now/collection/metadata.py
@@ -158,7 +158,7 @@ class Metascript(object):
     def clear_sys(self):
         """Clear sys variables"""
         # Replace now's dir with script's dir in front of module search path.
-        sys.path[0] = self.dir
+        sys.path[0] = os.path.dirname(self.path)
         # Clear argv
         sys.argv = self.argv
 
@@ -234,7 +234,7 @@ class Metascript(object):
 
     def read_restore_args(self, args):
         """Read cmd line argument object for 'now restore'"""
-        self.bypass_modules = True
+        self.bypass_modules = False
         self.command = " ".join(sys.argv[1:])
 
         self.dir = args.dir
-- 
2.43.0


From 747482909c7e8c35868ac5c258c39151eeeebfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:02 +0000
Subject: [PATCH 60/84] fix: restore the exact files of trials and of backups

---
 capture/noworkflow/now/cmd/cmd_restore.py     | 57 ++++++++++++-------
 .../collection/prov_definition/definition.py  |  5 +-
 .../now/ipython/magics/now_restore.py         |  4 +-
 capture/noworkflow/now/models/code_display.py |  9 ++-
 .../now/persistence/models/trial.py           | 39 ++++++++++---
 5 files changed, 82 insertions(+), 32 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index a1b1e47..3e78d18 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -71,14 +71,22 @@ class Restore(Command):
         metascript.arguments_store.add(tid, "restore", repr(old_id))
 
 
-        for path, info in viewitems(files):
-            if info["type"] == "script":
-                metascript.path = path
-                metascript.definition.create_code_block(
-                    None, path, "script", False, True
-                )
+        # The first code block of a trial is its script
+        ordered = sorted(viewitems(files),
+                         key=lambda item: item[1]["type"] != "script")
+        main_id = None
+        for path, info in ordered:
+            if info["code_hash"] is None and info["type"] != "access":
+                # The script or module does not exist anymore
+                if info["type"] == "module":
+                    access = accesses[accesses.add(tid, path, 0)]
+                    access.mode = "a+"
+            elif info["type"] == "script":
+                main_id = metascript.definition.create_code_block(
+                    None, full_path(path), "script", False, True
+                )[1]
             elif info["type"] == "module":
-                path = os.path.abspath(path)
+                path = os.path.abspath(full_path(path))
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
@@ -114,7 +122,7 @@ class Restore(Command):
 
 
         partial = True
-        Trial.fast_update(tid, metascript.main_id, datetime.now(), "backup")
+        Trial.fast_update(tid, main_id, datetime.now(), "backup")
         CodeComponent.store(metascript.code_components_store, partial)
         CodeBlock.store(metascript.code_blocks_store, partial)
         Module.store(modules, partial)
@@ -133,17 +141,18 @@ class Restore(Command):
         new_code_hash = file_hash(path)
         if code_hash == new_code_hash:
             return False
+        abs_path = full_path(path)
         if code_hash is None and mode != "script":
-            os.remove(path)
+            os.remove(abs_path)
             print_msg("File {} removed".format(path), self.print_msg)
             return True
         elif code_hash is not None:
             load_file = content.get(code_hash)
             try:
-                parent = os.path.dirname(path)
+                parent = os.path.dirname(abs_path)
                 if parent:
                     os.makedirs(parent, exist_ok=True)
-                with open(path, "wb") as fil:
+                with open(abs_path, "wb") as fil:
                     fil.write(load_file)
                 msg = "File {}".format(path)
                 if trial_id:
@@ -152,7 +161,8 @@ class Restore(Command):
 
                 print_msg(msg, self.print_msg)
                 return True
-            except NotADirectoryError as exc:
+            except (NotADirectoryError, IsADirectoryError,
+                    FileExistsError) as exc:
                 msg = "Unable to restore file {}".format(path)
                 if trial_id:
                     msg += " from trial {}".format(trial_id)
@@ -163,7 +173,7 @@ class Restore(Command):
 
     def restore_script(self, trial):
         """Restore the main script from <trial>"""
-        self.restore(trial.script, trial.code_hash, trial.id)
+        self.restore(trial.script_path, trial.code_hash, trial.id)
 
     def find_differences(self, files):
         """Compare files with existing files
@@ -189,7 +199,7 @@ class Restore(Command):
         self.trial = trial = metascript.trial = Trial(trial_ref=args.trial)
         metascript.trial_id = trial.id
         metascript.name = trial.script
-        metascript.path = trial.path
+        metascript.path = full_path(trial.script_path)
 
         restore_files = trial.versioned_files(**skip_dict(args))
         if not args.file:
@@ -225,11 +235,14 @@ class Restore(Command):
 
             parsed = parser.parse_args(args.file)
 
-            restore = self.find_file(args.trial, parsed.path, parsed.id)
+            restore = self.find_file(
+                trial.id if args.trial else None, parsed.path, parsed.id)
             if not restore:
                 print_msg("File version not found!", self.print_msg)
             else:
-                path = parsed.target or parsed.path
+                path = parsed.path
+                if parsed.target:
+                    path = os.path.abspath(parsed.target)
                 if not self.restore(path, restore[1], None):
                     print_msg("File has not changed!", self.print_msg)
             content.close()
@@ -261,11 +274,10 @@ class Restore(Command):
             if code_hash:
                 return path, code_hash
 
-        if tid and fid.isnumeric():
+        if fid.isnumeric():
             # Count accesses
             fid = int(fid)
-            trial = Trial(tid)
-            for i, result in enumerate(trial.iterate_accesses(path)):
+            for i, result in enumerate(self.trial.iterate_accesses(path)):
                 if fid == i + 1:
                     return path, result[1]["code_hash"]
 
@@ -286,9 +298,14 @@ def time_str(arg):
     return None
 
 
+def full_path(path):
+    """Return the location of a file of the project"""
+    return os.path.join(persistence_config.base_path, path)
+
+
 def file_hash(path):
     """Return hash of file in path or None"""
-    abs_path = os.path.join(persistence_config.base_path, path)
+    abs_path = full_path(path)
     if not os.path.isfile(abs_path):
         return None
     else:
diff --git a/capture/noworkflow/now/collection/prov_definition/definition.py b/capture/noworkflow/now/collection/prov_definition/definition.py
index 98946d1..31108c2 100644
--- a/capture/noworkflow/now/collection/prov_definition/definition.py
+++ b/capture/noworkflow/now/collection/prov_definition/definition.py
@@ -48,10 +48,13 @@ class Definition(object):
     def create_code_block(self, code, path, type_, binary, load):
         """Create code block for script/module"""
         # pylint: disable=too-many-arguments
+        code_hash = None
         if load:
             try:
                 with content.std_open(path, "rb") as script_file:
                     code = script_file.read()
+                    # Keep the bytes of the file, instead of its decoded text
+                    code_hash = content.put(code, path)
                     if not binary:
                         code = pyposast.native_decode_source(code)
             except UnicodeError:
@@ -81,7 +84,7 @@ class Definition(object):
             1, 0, len(lines), len(lines[-1]), -1
         )
         self.metascript.code_blocks_store.add(
-            id_, self.metascript.trial_id, code, binary, None, path
+            id_, self.metascript.trial_id, code, binary, None, path, code_hash
         )
         return code, id_
 
diff --git a/capture/noworkflow/now/ipython/magics/now_restore.py b/capture/noworkflow/now/ipython/magics/now_restore.py
index 8c85ccb..76186d2 100644
--- a/capture/noworkflow/now/ipython/magics/now_restore.py
+++ b/capture/noworkflow/now/ipython/magics/now_restore.py
@@ -6,6 +6,8 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
+from pyposast import native_decode_source
+
 from ...cmd import Restore
 from ...persistence import content
 
@@ -46,4 +48,4 @@ class NowRestore(IpythonCommandMagic, Restore):
         _, args = self.arguments(func, line)
         self.args_file, self.trial = args.file, None
         Restore.execute(self, args)
-        return content.get(self.trial.code_hash).decode("utf-8")
+        return native_decode_source(content.get(self.trial.code_hash))
diff --git a/capture/noworkflow/now/models/code_display.py b/capture/noworkflow/now/models/code_display.py
index 0aeae4c..66e0998 100644
--- a/capture/noworkflow/now/models/code_display.py
+++ b/capture/noworkflow/now/models/code_display.py
@@ -6,6 +6,8 @@
 
 import time
 
+import pyposast
+
 from future.utils import viewvalues
 
 from ..persistence import content
@@ -26,7 +28,12 @@ class CodeDisplay(object):
                 comp.id: comp
                 for comp in block.all_components
             }
-            self.code = content.get(block.code_hash).decode("utf-8")
+            self.code = content.get(block.code_hash)
+            if component.type in ("script", "module"):
+                # The store keeps the bytes of the file
+                self.code = pyposast.native_decode_source(self.code)
+            else:
+                self.code = self.code.decode("utf-8")
 
     def __getitem__(self, item):
         code = self.code.split('\n')
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index f90df9c..9b3ff8b 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -14,6 +14,7 @@ import getpass
 import socket
 from sqlalchemy import Column, Integer,String, Text, TIMESTAMP
 from sqlalchemy import ForeignKeyConstraint, select, func, distinct
+from sqlalchemy import literal_column
 from sqlalchemy.orm import relationship
 from ...utils.formatter import PrettyLines
 from ...utils.prolog import PrologDescription, PrologTrial
@@ -404,6 +405,16 @@ class Trial(AlchemyProxy):
         """
         return self.main.content
 
+    @property
+    def script_path(self):
+        """Return the path of the script. The name of the trial may differ
+        from it (now run --name)
+        """
+        component = self.main and self.main.this_component
+        if component and component.type == "script":
+            return os.path.basename(component.name)
+        return self.script
+
     @property
     def docstring(self):
         """Return trial docstring
@@ -632,13 +643,15 @@ class Trial(AlchemyProxy):
         def add(path, info):
             """Add file to dict"""
             if os.path.isabs(path):
-                if not path.startswith(self.path):
-                    return
                 path = os.path.relpath(path, self.path)
-            files[path] = info
+                if path.split(os.sep)[0] == os.pardir:
+                    return
+            files[os.path.normpath(path)] = info
 
         if script:
-            add(self.script, {"code_hash": self.code_hash, "type": "script"})
+            add(self.script_path, {
+                "code_hash": self.code_hash or None, "type": "script"
+            })
         if local:
             # pylint: disable=not-an-iterable
             for module in self.local_modules:
@@ -693,18 +706,25 @@ class Trial(AlchemyProxy):
         [('file2.txt', [('checkpoint', ...), ('code_hash', None), ('type', 'access')]),
          ('file2.txt', [('checkpoint', ...), ('code_hash', 'def'), ('type', 'access')])]
         """
-        if not path or self.script.endswith(path):
-            yield self.script, {"code_hash": self.code_hash, "type": "script"}
+        def match(name):
+            """Check if the accessed name refers to the path"""
+            return not path or ("/" + os.path.normpath(name)).endswith(
+                "/" + os.path.normpath(path).lstrip("/"))
+
+        if match(self.script_path):
+            yield self.script_path, {
+                "code_hash": self.code_hash, "type": "script"
+            }
         # pylint: disable=not-an-iterable
         for module in self.local_modules:
-            if not path or module.path.endswith(path):
+            if match(module.path):
                 yield module.path, {
                     "code_hash": module.code_hash,
                     "type": "module",
                     "name": module.name
                 }
         for faccess in list(self.file_accesses):
-            if not path or faccess.name.endswith(path):
+            if match(faccess.name):
                 yield faccess.name, {
                     "code_hash": faccess.content_hash_before,
                     "type": "access",
@@ -1096,7 +1116,8 @@ class Trial(AlchemyProxy):
                 select([ttrial.c.id]).where(ttrial.c.start.in_(
                     select([func.max(ttrial.c.start)])
                     .select_from(ttrial)
-                    .where(is_none(ttrial.c.modules_inherited_from_trial_id))
+                    .where(is_none(ttrial.c.modules_inherited_from_trial_id) &
+                           (ttrial.c.status != literal_column("'backup'")))
                 ))
             )
             cls.last_trial_id = str(_query)
-- 
2.43.0


From 565d88b0e92a113e1665b4d6e959878fa5b46cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:32 +0000
Subject: [PATCH 61/84] fix: transfer all the attributes of evaluations,
 components and trials

---
 .../now/persistence/lightweight/bundle.py        |  3 ++-
 .../persistence/lightweight/code_component.py    |  2 +-
 .../now/persistence/lightweight/evaluation.py    | 16 +++++++++++-----
 .../now/persistence/lightweight/trial.py         |  4 ++--
 capture/noworkflow/now/utils/collab.py           |  3 ++-
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/bundle.py b/capture/noworkflow/now/persistence/lightweight/bundle.py
index 52f7ac7..8779797 100644
--- a/capture/noworkflow/now/persistence/lightweight/bundle.py
+++ b/capture/noworkflow/now/persistence/lightweight/bundle.py
@@ -68,7 +68,8 @@ class BundleLW(BaseLW):
         self.dependencies=[DependencyLW(x["id"],x["trial_id"],x["dependent_activation_id"],x["dependent_id"],x["dependency_activation_id"],\
             x["dependency_id"],x["type"],x["reference"],x["collection_activation_id"],x["collection_id"],x["key"]) for x in data["dependencies"]]
         self.environmentAttrs=[EnvironmentAttrLW(x["id"],x["trial_id"],x["name"],x["value"]) for x in data["environmentAttrs"]]
-        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"]) for x in data["evaluations"]]
+        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"],\
+            x.get("member_container_activation_id"),x.get("member_container_id")) for x in data["evaluations"]]
         self.fileAccesses=[FileAccessLW(x["id"],x["trial_id"],x["name"],x["checkpoint"],x["mode"],x["buffering"],\
             x["content_hash_before"],x["content_hash_after"],x["activation_id"]) for x in data["fileAccesses"]]
         self.members=[MemberLW(x["id"],x["trial_id"],x["collection_activation_id"],x["collection_id"],x["member_activation_id"],\
diff --git a/capture/noworkflow/now/persistence/lightweight/code_component.py b/capture/noworkflow/now/persistence/lightweight/code_component.py
index 006709a..bf68380 100644
--- a/capture/noworkflow/now/persistence/lightweight/code_component.py
+++ b/capture/noworkflow/now/persistence/lightweight/code_component.py
@@ -57,6 +57,6 @@ class CodeComponentLW(BaseLW):
             'first_char_line': self.first_char_line,
             'first_char_column': self.first_char_column,
             'last_char_line': self.last_char_line,
-            'last_char_column': self.last_char_line,
+            'last_char_column': self.last_char_column,
             'container_id': self.container_id
         }
diff --git a/capture/noworkflow/now/persistence/lightweight/evaluation.py b/capture/noworkflow/now/persistence/lightweight/evaluation.py
index cc9dada..a661265 100644
--- a/capture/noworkflow/now/persistence/lightweight/evaluation.py
+++ b/capture/noworkflow/now/persistence/lightweight/evaluation.py
@@ -20,16 +20,20 @@ class EvaluationLW(BaseLW):
     nullable = {"checkpoint"}
     model = Evaluation
 
-    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_):
+    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_,
+                 member_container_activation_id=None, member_container_id=None):
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
         self.code_component_id = code_id
         self.activation_id = activation_id if int(activation_id) > 0 else 0
-        self.checkpoint = -1 if not checkpoint else checkpoint
+        self.checkpoint = -1 if checkpoint is None else checkpoint
         self.repr = repr_
         self._same = None
-        self.member_container_activation_id = self.activation_id
-        self.member_container_id = id_
+        if member_container_id is None:
+            member_container_activation_id = self.activation_id
+            member_container_id = id_
+        self.member_container_activation_id = member_container_activation_id
+        self.member_container_id = member_container_id
         self.members = {}
 
     def same(self):
@@ -69,5 +73,7 @@ class EvaluationLW(BaseLW):
             'code_component_id': self.code_component_id,
             'activation_id': self.activation_id,
             'checkpoint': self.checkpoint,
-            'repr': self.repr
+            'repr': self.repr,
+            'member_container_activation_id': self.member_container_activation_id,
+            'member_container_id': self.member_container_id
         }
diff --git a/capture/noworkflow/now/persistence/lightweight/trial.py b/capture/noworkflow/now/persistence/lightweight/trial.py
index 4291ae6..8fb770e 100644
--- a/capture/noworkflow/now/persistence/lightweight/trial.py
+++ b/capture/noworkflow/now/persistence/lightweight/trial.py
@@ -35,7 +35,7 @@ class TrialLW(BaseLW):
         self.modules_inherited_from_trial_id = modules_inherited_from_trial_id
         self.parent_id = parent_id
         self.main_id = main_id
-        self.experiment=experiment_id
+        self.experiment_id=experiment_id
         self.user_id=user_id
 
     def is_complete(self):
@@ -61,6 +61,6 @@ class TrialLW(BaseLW):
             'modules_inherited_from_trial_id': self.modules_inherited_from_trial_id,
             'parent_id': self.parent_id,
             'main_id': self.main_id,
-            'experiment_id': self.experiment,
+            'experiment_id': self.experiment_id,
             'user_id': self.user_id,
         }
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 3d41167..c95669e 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -110,7 +110,8 @@ def export_bundle(trialIds,usersIds=[]):
         [EnvironmentAttrLW(x.id,x.trial_id,x.name,x.value) for x in envToImport]
     )
     bundle.evaluations.extend(
-        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr) for x in evaluationToImport]
+        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr,\
+        x.member_container_activation_id,x.member_container_id) for x in evaluationToImport]
     )
     bundle.fileAccesses.extend(
         [FileAccessLW(x.id,x.trial_id,x.name,x.checkpoint,x.mode,x.buffering,\
-- 
2.43.0


From 06395738a88c3a692c622bfa1628299250bdab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 62/84] fix: transfer contents of any content engine, and users

---
 capture/noworkflow/now/cmd/cmd_import.py                 | 1 +
 capture/noworkflow/now/cmd/cmd_pull.py                   | 3 ++-
 capture/noworkflow/now/cmd/cmd_push.py                   | 4 ++--
 capture/noworkflow/now/persistence/content/base.py       | 4 ++++
 .../noworkflow/now/persistence/content/dulwich_engine.py | 9 +++++++++
 capture/noworkflow/now/persistence/content/git_system.py | 7 +++++++
 .../noworkflow/now/persistence/content/plain_engine.py   | 8 ++++++++
 .../noworkflow/now/persistence/content/puregit_engine.py | 4 ++++
 .../noworkflow/now/persistence/content/pygit_engine.py   | 7 +++++++
 capture/noworkflow/now/persistence/content_database.py   | 9 ++-------
 capture/noworkflow/now/utils/collab.py                   | 4 +++-
 capture/noworkflow/now/vis/views.py                      | 1 +
 12 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_import.py b/capture/noworkflow/now/cmd/cmd_import.py
index e7b3b4a..2f6eb68 100644
--- a/capture/noworkflow/now/cmd/cmd_import.py
+++ b/capture/noworkflow/now/cmd/cmd_import.py
@@ -51,6 +51,7 @@ class Import(Command):
         sourceFiles=self.sourceContent.listAll()
         
         [self.addFile(x) for x in sourceFiles if x not in targetFiles]
+        self.targetContent.commit_content("Import")
     
     def addFile(self,name):
         content=self.sourceContent.get(name)
diff --git a/capture/noworkflow/now/cmd/cmd_pull.py b/capture/noworkflow/now/cmd/cmd_pull.py
index 016de33..30c2e1d 100644
--- a/capture/noworkflow/now/cmd/cmd_pull.py
+++ b/capture/noworkflow/now/cmd/cmd_pull.py
@@ -71,7 +71,7 @@ class Pull(Command):
         print("Importing file: "+url)
         headers = {'Accept-Encoding': 'gzip'}
         response=requests.get(url, headers=headers)
-        content.put(response.content, None)
+        content.put(response.content, url.split("/")[-1])
 
     def importFiles(self,url):
         filesUrl=self.url+"/collab/files"
@@ -82,6 +82,7 @@ class Pull(Command):
         targetFiles=content.listAll()
         filesToImport=[x for x in sourceFiles if x not in targetFiles]
         [self.importFile(filesUrl+"/"+x) for x in filesToImport]
+        content.commit_content("Pull")
         
         return True
 
diff --git a/capture/noworkflow/now/cmd/cmd_push.py b/capture/noworkflow/now/cmd/cmd_push.py
index 2015478..32338dd 100644
--- a/capture/noworkflow/now/cmd/cmd_push.py
+++ b/capture/noworkflow/now/cmd/cmd_push.py
@@ -59,7 +59,7 @@ class Push(Command):
         url=self.url+"/collab/usersids"
         usersIds=self.get(url)
         if usersIds == self.text_invalid_experiment_id:
-            print(self.exportTrials + " " + usersIds)
+            print(self.text_exporting_trials_failed + " " + usersIds)
             return False
             
         localUsers=[u for u in User.all()]
@@ -106,7 +106,7 @@ class Push(Command):
             
             response = requests.post(filesUrl, files=multipart_form_data)
             if response.status_code == 400:
-                print(self.text_exporting_files_failed + " " + sourceFiles)
+                print(self.text_exporting_files_failed + " " + response.text)
                 return False
         
             zipF.close()
diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index a14a8ce..79787d0 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -56,6 +56,10 @@ class ContentDatabaseEngine(object):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
 
+    def listAll(self):
+        """List the hashes of all stored contents"""
+        raise NotImplementedError("Implement in subclass")
+
     def gc(self, content_hash):
         """Collect garbage from database"""
         raise NotImplementedError("Implement in subclass")
diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 9305039..10fed26 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -75,6 +75,15 @@ class DulwichEngine(GitContentDatabaseEngine):
         except KeyError:
             return None
 
+    def listAll(self):
+        """List the hashes of all stored contents"""
+        with self.use_safe_open():
+            object_store = self.repo.object_store
+            return [
+                sha.decode("ascii") for sha in object_store
+                if isinstance(object_store[sha], Blob)
+            ]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         with self.use_safe_open():
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index ef4512c..bfee6e6 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -105,6 +105,13 @@ def all_objects(git_path):
     return []
 
 
+def all_blobs(git_path):
+    cmd = ["git", "cat-file", "--batch-all-objects", "--batch-check"]
+    lines = execute(cmd, cwd=git_path).decode().split("\n")
+    objects = [line.split() for line in lines if line]
+    return [hash_ for hash_, type_, _ in objects if type_ == "blob"]
+
+
 def show_ref(ref, git_path):
     cmd = ["git", "show-ref", ref]
     result = execute(cmd, cwd=git_path, default=b"").decode().strip()
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 794b969..794be93 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -64,6 +64,14 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
+    def listAll(self):
+        """List the hashes of all stored contents"""
+        return [
+            os.path.basename(dirname) + filename
+            for dirname, _, filenames in os.walk(self.content_path)
+            for filename in filenames
+        ]
+
     def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index de56cfa..cb07e33 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -53,6 +53,10 @@ class PureGitEngine(GitContentDatabaseEngine):
                 return obj.decode("utf-8")
         return None
 
+    def listAll(self):
+        """List the hashes of all stored contents"""
+        return git_system.all_blobs(self.content_path)
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         tree = git_system.write_tree(self.content_path)
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index e2a0671..b159ed8 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -12,6 +12,7 @@ from collections import defaultdict
 from pygit2 import init_repository
 from pygit2 import Repository
 from pygit2 import GIT_FILEMODE_BLOB, GIT_FILEMODE_TREE
+from pygit2 import Blob
 from pygit2 import Signature
 
 from .gitbase import GitContentDatabaseEngine
@@ -63,6 +64,12 @@ class PyGitEngine(GitContentDatabaseEngine):
         except KeyError:
             return None
 
+    def listAll(self):
+        """List the hashes of all stored contents"""
+        return [
+            str(oid) for oid in self.repo if isinstance(self.repo[oid], Blob)
+        ]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         empty_tree = self.repo.TreeBuilder().write()
diff --git a/capture/noworkflow/now/persistence/content_database.py b/capture/noworkflow/now/persistence/content_database.py
index 4a61b37..86da27c 100644
--- a/capture/noworkflow/now/persistence/content_database.py
+++ b/capture/noworkflow/now/persistence/content_database.py
@@ -84,10 +84,5 @@ class ContentDatabase(object):
         self.content_database_engine.connect(config)
     
     def listAll(self):
-        files = []
-        for r,d, f in os.walk(self.__getattr__("content_path")):
-            for file in f:
-                fileName=os.path.basename(r)
-                fileName+=file
-                files.append(fileName)
-        return files
+        """List the hashes of all stored contents"""
+        return self.content_database_engine.listAll()
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index c95669e..cebba7e 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -63,7 +63,7 @@ def import_bundle(bundle, experiment=None):
             main_block_code_hash=main_block[0].code_hash
         Tag.create_automatic_tag(x.id,main_block_code_hash,x.command, experiment_id=experiment)
     
-def export_bundle(trialIds,usersIds=[]):
+def export_bundle(trialIds,usersIds=None):
     #Load dependencies
     trialsToImport=[t for t in Trial.all() if t.id in trialIds ]
     actsToImport=Activation.load_by_trials(trialIds)
@@ -77,6 +77,8 @@ def export_bundle(trialIds,usersIds=[]):
     fileAccessToImport=FileAccess.load_by_trials(trialIds)
     memberToImport=Member.load_by_trials(trialIds)
     moduleToImport=Module.load_by_trials(trialIds)
+    if usersIds is None:
+        usersIds=[t.user_id for t in trialsToImport]
     usersToImport=[u for u in User.all() if u.id in usersIds ]
     
 
diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 95cecdf..6c16433 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -243,6 +243,7 @@ def receiveFiles(expCode):
         zipObj = ZipFile(zF, 'r')
         for fName in zipObj.namelist():
             content.put(zipObj.read(fName), fName)
+        content.commit_content("Push")
 
         zipObj.close()
         zF.close()
-- 
2.43.0


From e8fee84065a899e6dd3b94c51fdea791113a0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:10 +0000
Subject: [PATCH 63/84] fix: export valid Prolog facts for any text, and rules
 that match the facts

---
 .../now/persistence/models/evaluation.py      |  2 +-
 .../now/persistence/models/module.py          |  4 +-
 capture/noworkflow/now/utils/prolog.py        | 39 ++++++++++++-------
 capture/noworkflow/resources/rules.pl         |  6 +--
 4 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/evaluation.py b/capture/noworkflow/now/persistence/models/evaluation.py
index 2057497..d58768c 100644
--- a/capture/noworkflow/now/persistence/models/evaluation.py
+++ b/capture/noworkflow/now/persistence/models/evaluation.py
@@ -120,7 +120,7 @@ class Evaluation(AlchemyProxy):
     prolog_description = PrologDescription("evaluation", (
         PrologTrial("trial_id", link="trial.id"),
         PrologAttribute("id"),
-        PrologAttribute("checkpoint"),
+        PrologNullable("checkpoint"),
         PrologAttribute("code_component_id", link="code_component.id"),
         PrologNullable("activation_id", link="activation.id"),
         PrologRepr("repr"),
diff --git a/capture/noworkflow/now/persistence/models/module.py b/capture/noworkflow/now/persistence/models/module.py
index 3268443..ced939c 100644
--- a/capture/noworkflow/now/persistence/models/module.py
+++ b/capture/noworkflow/now/persistence/models/module.py
@@ -10,7 +10,7 @@ from sqlalchemy import Column, Integer, String, Text, Boolean, select, bindparam
 from sqlalchemy import PrimaryKeyConstraint, ForeignKeyConstraint
 
 from ...utils.prolog import PrologDescription, PrologTrial, PrologRepr
-from ...utils.prolog import PrologAttribute, PrologNullableRepr
+from ...utils.prolog import PrologAttribute, PrologNullableRepr, PrologBoolean
 
 from .. import relational
 
@@ -81,7 +81,7 @@ class Module(AlchemyProxy):
         PrologNullableRepr("version"),
         PrologRepr("path"),
         PrologNullableRepr("code_block_id", link="code_block.id"),
-        PrologAttribute("transformed"),
+        PrologBoolean("transformed"),
         PrologRepr("fullpath"),
     ), description=(
         "informs that in a given trial (*TrialId*),\n"
diff --git a/capture/noworkflow/now/utils/prolog.py b/capture/noworkflow/now/utils/prolog.py
index cdc3a01..b6e99ae 100644
--- a/capture/noworkflow/now/utils/prolog.py
+++ b/capture/noworkflow/now/utils/prolog.py
@@ -5,8 +5,23 @@
 """Helpers for Prolog Extraction"""
 
 
+import re
+
 from datetime import datetime
-from string import ascii_letters
+
+
+SINGLE_LITERAL = re.compile(
+    r"""(?:[rRbBuUfF]|[rR][bBfF]|[bBfF][rR])?(?P<quote>['"])(?P<text>(?:\\.|(?!(?P=quote))[^\\])*)(?P=quote)""",
+    re.S
+)
+CONTROL = re.compile("[\x00-\x1f\x7f\x85\u2028\u2029]")
+
+
+def quote_atom(value):
+    """Represent text as a quoted atom"""
+    value = value.replace("\\", "\\\\").replace("'", "''")
+    value = CONTROL.sub(lambda m: "\\x{:x}\\".format(ord(m.group())), value)
+    return "'{}'".format(value)
 
 
 class PrologDescription(object):
@@ -98,11 +113,11 @@ class PrologTrial(PrologAttribute):
     """Represent Trial id attribute, used for retract"""
     
     def fact(self, obj):
-        return "'{}'".format(self.value(obj).replace("'", "''"))
+        return quote_atom(self.value(obj))
 
     def retract(self, trial_id):
         """Trial Attribute identifies fact. Retrun trial_id"""
-        return "'{}'".format(trial_id.replace("'", "''"))
+        return quote_atom(trial_id)
 
 
 class PrologRepr(PrologAttribute):
@@ -113,15 +128,11 @@ class PrologRepr(PrologAttribute):
         value = self.value(obj)
         if not isinstance(value, str):
             value = repr(value)
-        value = value.replace("\\", "\\\\")
-
-        if len(value) > 1:
-            if value[0] in ascii_letters and value[1] in ('"', "'"):
-                value = value[1:]
-            if value[0] in ('"', "'") and value[-1] == value[0]:
-                value = value[1:-1]
-
-        return "'{}'".format(value.replace("'", "''"))
+        # Remove the quotes of string literals
+        match = SINGLE_LITERAL.fullmatch(value)
+        if match:
+            value = match.group("text")
+        return quote_atom(value)
 
 
 class PrologTimestamp(PrologAttribute):
@@ -146,8 +157,8 @@ class PrologNullable(PrologAttribute):
     def fact(self, obj):
         """Replace None by nil if attribute self.attr_name of obj"""
         value = self.value(obj)
-        if(self.name == 'parent_id') and value is not None: value = "'{}'".format(value.replace("'", "''"))
-        if(self.name == 'modules_inherited_from_trial_id') and value is not None: value = "'{}'".format(value.replace("'", "''"))
+        if(self.name == 'parent_id') and value is not None: value = quote_atom(value)
+        if(self.name == 'modules_inherited_from_trial_id') and value is not None: value = quote_atom(value)
         return str(value) if value is not None else "nil"
 
 
diff --git a/capture/noworkflow/resources/rules.pl b/capture/noworkflow/resources/rules.pl
index 93cd372..29510d7 100644
--- a/capture/noworkflow/resources/rules.pl
+++ b/capture/noworkflow/resources/rules.pl
@@ -436,12 +436,12 @@
 
         indirect_access_id(TrialId, Function, File) :- access_stack_id(TrialId, File, Functions), member(Function, Functions).
 
-    % activation_influence_id(TrialId, Influencer, Influenced)/3
+    % access_influence_id(TrialId, Influencer, Influenced)/3
         % DESCRIPTION: match *Influencer* activations that might have *Influenced* an access
         %              in a given trial (*TrialId*).
         %              This a Naive rule! It considers just the succession order
 
-        access_influence_id(TrialId, Influencer, Influenced) :- file_read_id(TrialId, Influencer), file_written_id(TrialId, Influenced), successor_id(TrialId, access, Influencer, access, Influenced), access_id(TrialId, F1, Influencer), access_id(TrialId, F2, Influenced), activation_influence_id(TrialId, F1, F2).
+        access_influence_id(TrialId, Influencer, Influenced) :- file_read_id(TrialId, Influencer), file_written_id(TrialId, Influenced), successor_id(TrialId, access, Influencer, access, Influenced), access_id(TrialId, F1, Influencer), access_id(TrialId, F2, Influenced), temporal_activation_influence_id(TrialId, F1, F2).
 
     %%% NAME-BASED
 
@@ -493,7 +493,7 @@
         %              in a given trial (*TrialId*).
         %              Ignores argument types
 
-        valid_dependency_id(TrialId, Dependent, Dependency, Type) :- dependency(TrialId, _, Dependent, _, Dependency, Type), sub_atom(Type, 0, 3, _, Prefix), Prefix \= 'arg'.
+        valid_dependency_id(TrialId, Dependent, Dependency, Type) :- dependency(TrialId, _, Dependent, _, Dependency, Type, _, _, _, _), sub_atom(Type, 0, 3, _, Prefix), Prefix \= 'arg'.
 
     % evaluation_slice_id(TrialId, Dependent, Dependencies)/3
         % DESCRIPTION: get *Dependencies* of *Dependent* evaluation
-- 
2.43.0


From a356ef81e60c52d30eb78b5b9cbad1dbaf5b3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:17 +0000
Subject: [PATCH 64/84] fix: write pending contents and finish when processes
 exit without closing the store

---
 capture/noworkflow/now/persistence/content/parallel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index 61b1579..838bd3a 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -6,6 +6,7 @@
 
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
+    from multiprocessing.util import Finalize
     from . import safeopen
     class Worker(Process):
 
@@ -46,6 +47,8 @@ def create_distributed(cls, name=None):
             self.object_hashes = self.manager.dict()
             self.num_consumers = cpu_count()
             self.processes_started = True
+            # Close before multiprocessing joins the consumers at exit
+            Finalize(None, self.close, exitpriority=20)
             self.consumers = []
             with safeopen.use_safe_open():
                 for _ in range(self.num_consumers):
@@ -79,6 +82,7 @@ def create_distributed(cls, name=None):
 
 def create_pool(cls, name=None):
     from multiprocessing import cpu_count, Manager, Pool, Lock
+    from multiprocessing.util import Finalize
     from . import safeopen
 
     class ProcessingPool(cls):
@@ -97,6 +101,8 @@ def create_pool(cls, name=None):
                 self.object_hashes = self.manager.dict()
                 self.pool = Pool(cpu_count())
                 self.processes_started = True
+                # Close before multiprocessing terminates the pool at exit
+                Finalize(None, self.close, exitpriority=20)
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
-- 
2.43.0


From 0ed2b4c820db54b3408ddaad6fddfc430693bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:29 +0000
Subject: [PATCH 65/84] fix: show the current history of any store

---
 .../now/models/graphs/history_graph.py        | 22 +++++++++++++++----
 .../now/persistence/models/trial.py           |  1 +
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index c30d8d3..acc235d 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -50,9 +50,9 @@ class HistoryGraph(Graph):
 
         key = (
             self.history.script, self.history.status, self.history.summarize,
-            Trial.count(None,self.history.expId)
+            self.history.expId, self._state()
         )
-        
+
         if self.use_cache and key in self.cache:
             return self.cache[key]
 
@@ -81,6 +81,20 @@ class HistoryGraph(Graph):
 
         return result
 
+    def _state(self):  # pylint: disable=no-self-use
+        """Return the stored values that influence the history"""
+        session, trial, tag = relational.session, Trial.m, Tag.m
+        return (
+            str(relational.session.get_bind().url),
+            tuple(map(tuple, session.query(
+                trial.id, trial.experiment_id, trial.script, trial.status,
+                trial.parent_id, trial.start, trial.finish
+            ).order_by(trial.id))),
+            tuple(map(tuple, session.query(
+                tag.id, tag.trial_id, tag.type, tag.name
+            ).order_by(tag.id))),
+        )
+
     def graph(self):
         """Return history_data as a dict graph"""
         result = self.history_data()
@@ -158,7 +172,7 @@ class HistoryGraph(Graph):
 
         for trial in viewvalues(trial_map):
             graph[trial.id][trial.id] = 0
-            if trial.parent_id is not None:
+            if trial.parent_id in trial_map:
                 graph[trial.id][trial.parent_id] = 1
 
         return graph
@@ -402,7 +416,7 @@ class HistoryGraph(Graph):
         display(bundle, raw=True)
 
     def __repr__(self):
-        width = max(len(s) for s in self.history.scripts)
+        width = max([len(s) for s in self.history.scripts] or [0])
         history = self.history_data()
         nodes = history["nodes"]
 
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index 9b3ff8b..5c50059 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -1284,6 +1284,7 @@ class Trial(AlchemyProxy):
         session = session or relational.session
         return proxy_gen(
             session.query(cls.m)
+            .populate_existing()
             .filter(cls.m.experiment_id == expId)
             .order_by(cls.m.start.desc())
             .limit(limit)
-- 
2.43.0


From 1f4bfa88bbc36383199947bdf505d82e552137c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:48 +0000
Subject: [PATCH 66/84] fix: show all activations in graphs, and match exact
 calls only when all sub-calls match

---
 .../now/models/graphs/trial_graph.py          | 65 +++++++++++++++----
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 8f92d0c..c6853d1 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -179,21 +179,55 @@ class Summarization(object):
         self.add_edge(last, node, 'sequence')
         return node
 
-    def __call__(self, preorder):
+    def insert_detached(self, call, parent, previous):
+        """Insert call of an activation that is not active anymore.
+        Generators are resumed after other activations
 
-        for call in preorder:
-            if not call.caller_id:
-                last = self.insert_first(call)
-                continue
-            if call.caller_id > last.caller_id:
-                last = self.insert_call(call, last)
-                continue
+        Insert sequence edge from previous call of the parent to call
+        """
+        match = self.calculate_match(call)
+        node = self.matches[parent.index].get(match)
+        if node is None:
+            node = self.insert_node(call, parent, match)
+        else:
+            self.merge(node, call)
+            node.caller_id = max(node.caller_id, call.caller_id)
+        if previous is None:
+            self.add_edge(parent, node, 'call')
+        else:
+            self.add_edge(previous, node, 'sequence')
+        return node
 
-            while call.caller_id < last.caller_id:
-                last = self.insert_return(last)
+    def activation_id(self, call):                                               # pylint: disable=no-self-use
+        """Return id of activation"""
+        return call.id
 
-            if call.caller_id == last.caller_id:
-                last = self.insert_sequence(call, last)
+    def __call__(self, preorder):
+        path = []  # ids of the active activations and of the last one
+        nodes = {}
+        previous = {}
+
+        for call in preorder:
+            caller_id = call.caller_id
+            activation_id = self.activation_id(call)
+            if not caller_id:
+                node = last = self.insert_first(call)
+                path = [activation_id]
+            elif caller_id in path:
+                while caller_id not in path[-2:]:
+                    last = self.insert_return(last)
+                    path.pop()
+                if path[-1] == caller_id:
+                    node = last = self.insert_call(call, last)
+                    path.append(activation_id)
+                else:
+                    node = last = self.insert_sequence(call, last)
+                    path[-1] = activation_id
+            else:
+                node = self.insert_detached(
+                    call, nodes.get(caller_id, self.root),
+                    previous.get(caller_id))
+            nodes[activation_id] = previous[caller_id] = node
 
         while self.stack:
             last = self.insert_return(last)
@@ -258,8 +292,7 @@ class NoMatchSummarization(LineNameSummarization):
 
     def insert_sequence(self, call, last):
         """Inser last caller and comma to caller"""
-        if not last.children:
-            self.nodes[last.parent_index].repr += last.repr + ","
+        self.nodes[last.parent_index].repr += last.repr + ","
         return super(NoMatchSummarization, self).insert_sequence(call, last)
 
 
@@ -279,6 +312,10 @@ class StructureSummarization(Summarization):
         """Match by repr"""
         return (node.repr,)
 
+    def activation_id(self, call):
+        """Return id of the single activation of the node"""
+        return next(iter(call.activations.values()))[0]
+
     def __call__(self, preorder):
         return super(StructureSummarization, self).__call__(
             NoMatchSummarization(preorder).nodes
-- 
2.43.0


From 356229468c5e92caeb54888aed27b7190e0e27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:05 +0000
Subject: [PATCH 67/84] fix: generate valid dot for any text

---
 .../now/models/dependency_graph/attributes.py |  9 ++++++-
 .../models/dependency_graph/dot_visitor.py    | 25 ++++++++++---------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/attributes.py b/capture/noworkflow/now/models/dependency_graph/attributes.py
index 43b44a1..58e6024 100644
--- a/capture/noworkflow/now/models/dependency_graph/attributes.py
+++ b/capture/noworkflow/now/models/dependency_graph/attributes.py
@@ -9,6 +9,13 @@ from copy import copy
 from future.utils import viewitems
 
 
+def quote(value):
+    """Quote value for DOT"""
+    return '"{}"'.format(
+        str(value).replace("\\", "\\\\").replace('"', '\\"')
+    )
+
+
 class Attributes(object):
     """Represent an attributes configuration for DOT"""
 
@@ -41,7 +48,7 @@ class Attributes(object):
         if not items:
             return ""
         return "[{}]".format(" ".join(
-            '{}="{}"'.format(key, value)
+            "{}={}".format(key, quote(value))
             for key, value in viewitems(items)
         ))
 
diff --git a/capture/noworkflow/now/models/dependency_graph/dot_visitor.py b/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
index fb1ca36..69260bf 100644
--- a/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
+++ b/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
@@ -10,17 +10,18 @@ from functools import reduce
 from future.utils import viewitems
 
 from .base_visitor import ClusterVisitor
-from .attributes import Attributes
+from .attributes import Attributes, quote
 
 
-def escape(string, size=55):
-    """Escape string for dot file"""
+def shorten(string, size=55):
+    """Shorten string for dot file"""
     if not size or not string:
         return ""
     if len(string) > size:
         half_size = (size - 5) // 2
-        string = string[:half_size] + " ... " + string[-half_size:]
-    return "" if string is None else string.replace('"', '\\"')
+        end = len(string) - half_size
+        string = string[:half_size] + " ... " + string[end:]
+    return string
 
 
 class DotVisitor(ClusterVisitor):
@@ -43,7 +44,7 @@ class DotVisitor(ClusterVisitor):
         self.insert("{} {{".format(title))
         self.indent += "    "
         yield
-        self.indent = self.indent[:4]
+        self.indent = self.indent[:-4]
         self.insert("}")
 
     def process_cluster_content(self, cluster):
@@ -74,15 +75,15 @@ class DotVisitor(ClusterVisitor):
         with self.subgroup("subgraph {}".format(cluster.cluster_id)):
             self.insert('color="#3A85B9";')
             self.insert("fontsize=30;")
-            self.insert('label = "{}";'.format(cluster.activation_name))
+            self.insert("label = {};".format(quote(cluster.activation_name)))
 
             self.visit_activation(cluster, name="return")
             self.process_cluster_content(cluster)
 
     def visit_evaluation(self, node):
         """Create evaluation node for graph"""
-        name = escape(node.name, self.name_length)
-        value = escape(node.value, self.value_length)
+        name = shorten(node.name, self.name_length)
+        value = shorten(node.value, self.value_length)
 
         label_list = ["{} {}".format(node.line, name)]
         if value:
@@ -100,8 +101,8 @@ class DotVisitor(ClusterVisitor):
 
     def visit_activation(self, node, name=None):
         """Create activation node for graph"""
-        name = escape(name or node.name, self.name_length)
-        value = escape(node.value, self.value_length)
+        name = shorten(name or node.name, self.name_length)
+        value = shorten(node.value, self.value_length)
 
         label_list = ["{} {}".format(node.line, name)]
         if value:
@@ -119,7 +120,7 @@ class DotVisitor(ClusterVisitor):
 
     def visit_access(self, node):
         """Create access node for graph"""
-        label = escape(node.name, self.name_length)
+        label = shorten(node.name, self.name_length)
 
         attrs = Attributes({
             "label": label,
-- 
2.43.0


From cde7cc09d628ae5af57200b2369ebe2bf43e7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:23 +0000
Subject: [PATCH 68/84] fix: show prospective dataflow when activations are not
 shown

---
 capture/noworkflow/now/models/dependency_graph/clusterizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/clusterizer.py b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
index dc65f36..f032b23 100644
--- a/capture/noworkflow/now/models/dependency_graph/clusterizer.py
+++ b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
@@ -333,7 +333,7 @@ class ProspectiveClusterizer(Clusterizer):
             self.process_activation(activation, evaluation, cluster, False)
             for dep in chain(evaluation.dependencies, evaluation.dependents):
                 dep_act_node_id = EvaluationNode.get_node_id(dep.activation_id)
-                dep_cluster = created[dep_act_node_id][1]
+                _, dep_cluster = created.get(dep_act_node_id, (None, None))
                 if not isinstance(dep_cluster, ClusterNode):
                     continue
                 self.process_evaluation(dep, dep_cluster, False)
-- 
2.43.0


From d05a430cd075988119c9b53e323d04459b19d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:41 +0000
Subject: [PATCH 69/84] fix: do not collect exceptions handled below the depth
 limit

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 4553d68..fa2d79c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -581,6 +581,8 @@ class Collector(object):
         """Collection activation exc value"""
         # pylint: disable=too-many-arguments, unused-argument
         # ToDo: relate evaluation to exception
+        if not activation.active:
+            return
         evaluation = self.evaluate_depa(activation, code_id, value, None)
         if name:
             self.bind(activation, name, evaluation)
-- 
2.43.0


From 1060daa387ea02a098a9f0a93d946e2f331b4a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 70/84] fix: end runs with functions that are called without
 collection

---
 .../now/collection/prov_execution/collector.py   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index fa2d79c..b91929c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1641,15 +1641,23 @@ class Collector(object):
                         activation.dependencies.pop()
                     return result
 
+                dry = None
+                if not activation.active and activation.code_block_id != -1:
+                    # Running another function that is not collected
+                    activation = dry = self.dry_activation(activation)
                 if closure_activation != activation:
                     activation.closure = closure_activation
                 activation.code_block_id = block_id
                 #if activation.active:
                 #    self._match_arguments(function_def, activation, arguments, defaults, args)
                 
-                result = function_def(
-                    activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
-                )
+                try:
+                    result = function_def(
+                        activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
+                    )
+                finally:
+                    if dry is not None:
+                        self.last_activation = dry.last_activation
                 bound_dependency = activation.bound_dependency
                 if function_def.__name__ == "__init__" and isinstance(bound_dependency, Dependency):
                     old_mode = bound_dependency.mode
@@ -2267,6 +2275,8 @@ class Collector(object):
 
     def add_type(self, evaluation, value):
         """Create type for evaluation"""
+        if evaluation.id == -1:  # dry evaluations are not stored
+            return
         if type(value) is type:
             if value not in self.shared_types:
                 self.shared_types[value] = evaluation
-- 
2.43.0


From 571c42817165d712623b70ed9d46a6c1fa21ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:08 +0000
Subject: [PATCH 71/84] fix: store trials that end with exceptions without
 representation

---
 capture/noworkflow/now/collection/prov_execution/execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index 2cda28f..13121d8 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -76,7 +76,8 @@ class Execution(object):
             self.force_msg = self.partial = True
             self.msg = ("{}\n"
                         "the execution finished with an uncaught exception. {}"
-                        "".format(repr(exc), traceback.format_exc()))
+                        "".format(self.collector.get_value(exc),
+                                  traceback.format_exc()))
         else:
             self.force_msg = self.partial = False
             self.msg = ("the execution of trial {} finished successfully"
-- 
2.43.0


From 75c2a6dc5abb466db01b4d694c24da801f388bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:25 +0000
Subject: [PATCH 72/84] fix: show the dataflow of trials without activations

---
 capture/noworkflow/now/models/dataflow_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/models/dataflow_model.py b/capture/noworkflow/now/models/dataflow_model.py
index 71d69df..abb4477 100644
--- a/capture/noworkflow/now/models/dataflow_model.py
+++ b/capture/noworkflow/now/models/dataflow_model.py
@@ -46,6 +46,8 @@ class DataflowModel(Model):
     def export_text(self):
         """Export facts from trial as text"""
         self._load_trial_and_activation()
+        if self.activation is None:  # the trial does not have activations
+            return "digraph dataflow {\n}"
         clusterizer = self.trial.dependency_clusterizer
         if self.run:
             clusterizer.run()
-- 
2.43.0


From d8a180e82f1ef9b8ba55ee2d3cead98b8785d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:44 +0000
Subject: [PATCH 73/84] fix: do not leave incomplete contents when processes
 are killed

---
 .../noworkflow/now/persistence/content/plain_engine.py    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 794be93..287ca5a 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -1,5 +1,6 @@
 import hashlib
 import os
+import threading
 from os.path import join, isdir, isfile
 
 from .base import ContentDatabaseEngine
@@ -31,8 +32,12 @@ class PlainEngine(ContentDatabaseEngine):
             os.makedirs(content_dirname)
         content_filename = join(content_dirname, content_hash[2:])
         if not isfile(content_filename):
-            with safeopen.std_open(content_filename, "wb") as content_file:
+            # An interruption cannot leave an incomplete content
+            temporary = "{}.{}-{}.tmp".format(
+                content_dirname, os.getpid(), threading.get_ident())
+            with safeopen.std_open(temporary, "wb") as content_file:
                 content_file.write(content)
+            os.replace(temporary, content_filename)
         return content_hash
 
     def put_attr(self, content, filename):
@@ -70,6 +75,7 @@ class PlainEngine(ContentDatabaseEngine):
             os.path.basename(dirname) + filename
             for dirname, _, filenames in os.walk(self.content_path)
             for filename in filenames
+            if not filename.endswith(".tmp")
         ]
 
     def gc(self, aggressive=False):
-- 
2.43.0


From d3c523119b3c2d72201c47dd86d3d08ce9a73504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:06 +0000
Subject: [PATCH 74/84] fix: complete the creation of databases that was
 interrupted

---
 capture/noworkflow/now/persistence/relational_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/relational_database.py b/capture/noworkflow/now/persistence/relational_database.py
index 5be2d34..b9763a0 100644
--- a/capture/noworkflow/now/persistence/relational_database.py
+++ b/capture/noworkflow/now/persistence/relational_database.py
@@ -59,7 +59,8 @@ class RelationalDatabase(object):
 
         if new_db:
             print_msg("creating provenance database")
-            self.base.metadata.create_all(self.engine)
+        # The creation of an existing database may have been interrupted
+        self.base.metadata.create_all(self.engine)
 
     def make_session(self):
         """Create thread safe session"""
-- 
2.43.0


From 7bf60b1947328a55eca00648e8f2935202e6d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:25 +0000
Subject: [PATCH 75/84] fix: export valid PROV-N for any text

---
 capture/noworkflow/now/models/prov/export.py | 57 ++++++++++++++++----
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/capture/noworkflow/now/models/prov/export.py b/capture/noworkflow/now/models/prov/export.py
index 15ae97e..61f9de7 100644
--- a/capture/noworkflow/now/models/prov/export.py
+++ b/capture/noworkflow/now/models/prov/export.py
@@ -1,3 +1,5 @@
+import ast
+
 from collections import Counter
 from itertools import groupby
 
@@ -16,8 +18,38 @@ OPERATIONS = ("add", "sub", "mult", "div", "mod", "pow", "floordiv", # arithmeti
              )
 
 
-def escape_parentheses(string):
-    return string.replace("(", r"\(").replace(")", r"\)")
+def escape_name(string):
+    """Escape local names of PROV-N"""
+    result = []
+    for char in string:
+        if char.isalnum() or char in "_@":
+            result.append(char)
+        elif char in "='(),-:;\"[].":
+            result.append("\\" + char)
+        else:
+            result.extend("%{:02X}".format(x) for x in char.encode("utf-8"))
+    return "".join(result)
+
+
+def escape_string(string):
+    """Escape quoted strings of PROV-N"""
+    return (
+        string.replace("\\", "\\\\").replace('"', '\\"')
+        .replace("\n", "\\n").replace("\r", "\\r")
+    )
+
+
+def split_subscript(name):
+    """Return collection and key of a subscript"""
+    try:
+        tree = ast.parse("({})".format(name), mode="eval").body
+        if isinstance(tree, ast.Subscript):
+            source = "({})".format(name)
+            return (ast.get_source_segment(source, tree.value),
+                    ast.get_source_segment(source, tree.slice))
+    except SyntaxError:
+        pass
+    return name, ""
 
 
 def entity_name(evaluation):
@@ -27,13 +59,12 @@ def entity_name(evaluation):
     if component.type in ("name", "literal", "param"):
         ent_name_str = str(component.first_char_line) + "_" + component.name
     elif component.type == "subscript":
-        ent_name = component.name.split("[")[0]
-        ent_name += "@" + component.name.split("[")[1].split("]")[0]
+        ent_name = "@".join(split_subscript(component.name))
         ent_name_str = str(component.first_char_line) + "_" + ent_name
     else:
         ent_name_str = component.type + str(component.id)
         
-    return escape_parentheses(ent_name_str)
+    return escape_name(ent_name_str)
 
 
 def entity_type(evaluation):
@@ -129,14 +160,16 @@ def export_prov(trial, name="temp", formats="svg"):
             
             entity_str = 'entity({}, [value="{}", type="script:{}"'.format(
                 entity_name(ev),
-                value,
+                escape_string(value),
                 entity_type(ev)
             )
             
             if ev.code_component.type == ("literal"):
                 entity_str += '])'
             else:
-                entity_str += ', label="{}"])'.format(ev.code_component.name)
+                entity_str += ', label="{}"])'.format(
+                    escape_string(ev.code_component.name)
+                )
                 
             output(entity_str)
     
@@ -162,7 +195,7 @@ def export_prov(trial, name="temp", formats="svg"):
                 act_name, 
                 counter[act_name],
                 act_type,
-                act_label
+                escape_string(act_label)
             )
             output(activity_str)
             previous_activity = act_name + str(counter[act_name])
@@ -273,13 +306,15 @@ def export_prov(trial, name="temp", formats="svg"):
                 if type_ == "access":
                     wasDerivedFrom_str += ', version:collection="{}", version:key="{}", version:access="{}"'.format(
                         collection_name,
-                        dep.key[1:-1],
+                        escape_string(dep.key[1:-1]),
                         dep.dependent.code_component.mode
                     )
                 elif entity_type(dep.dependent) == "access":
                     wasDerivedFrom_str += ', version:collection="{}", version:key="{}", version:access="{}"'.format(
                         find_collection_name(dep.dependent_id),
-                        entity_name(dep.dependent).split("@")[1],
+                        escape_string(split_subscript(
+                            dep.dependent.code_component.name
+                        )[1]),
                         "w"
                     )
                 
@@ -301,7 +336,7 @@ def export_prov(trial, name="temp", formats="svg"):
             hadMember_str = 'hadMember({}, {}, [type="version:Put", version:key="{}", version:checkpoint="{}"])'.format(
                 entity_name(mem.collection),
                 member,
-                mem.key[1:-1],
+                escape_string(mem.key[1:-1]),
                 get_ckpt_order(mem.checkpoint)
             )
             output(hadMember_str)
-- 
2.43.0


From 768be09c6fcb25ecaecb11ae1227b8ce0e983f45 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:14:04 +0000
Subject: [PATCH 76/84] fix: store text with lone surrogates

---
 capture/noworkflow/now/collection/metadata.py        |  7 ++++---
 .../noworkflow/now/persistence/lightweight/base.py   | 12 +++++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/metadata.py b/capture/noworkflow/now/collection/metadata.py
index b3f49a1..f4ed4ca 100644
--- a/capture/noworkflow/now/collection/metadata.py
+++ b/capture/noworkflow/now/collection/metadata.py
@@ -24,6 +24,7 @@ from ..persistence.lightweight import CompositionLW
 from ..persistence.lightweight import EvaluationLW, ActivationLW, DependencyLW
 from ..persistence.lightweight import MemberLW, FileAccessLW
 from ..persistence.lightweight import ExceptionLW
+from ..persistence.lightweight.base import storable
 from ..utils import io
 from ..utils.cross_version import perf_counter
 
@@ -261,14 +262,14 @@ class Metascript(object):
         return (
             self.trial_id,
             self.code_blocks_store[1].code_hash,
-            self.command
+            storable(self.command)
         )
 
     def create_trial_args(self):
         """Return arguments for Trial.create"""
         start, self._trial_start_checkpoint = datetime.now(), perf_counter()
         return (
-            self.name, start, self.command,
-            os.path.dirname(self.path),
+            storable(self.name), start, storable(self.command),
+            storable(os.path.dirname(self.path)),
             self.bypass_modules
         )
diff --git a/capture/noworkflow/now/persistence/lightweight/base.py b/capture/noworkflow/now/persistence/lightweight/base.py
index 1651e4e..1fc52ae 100644
--- a/capture/noworkflow/now/persistence/lightweight/base.py
+++ b/capture/noworkflow/now/persistence/lightweight/base.py
@@ -162,6 +162,16 @@ def define_attrs(required, extra=[]):
     return slots, attributes
 
 
+def storable(value):
+    """Escape text that databases can't store (lone surrogates)"""
+    if isinstance(value, str):
+        try:
+            value.encode("utf-8")
+        except UnicodeEncodeError:
+            return value.encode("utf-8", "backslashreplace").decode("utf-8")
+    return value
+
+
 class BaseLW(object):                                                            # pylint: disable=too-few-public-methods
     """Lightweight modules base class"""
 
@@ -178,4 +188,4 @@ class BaseLW(object):
     def __getitem__(self, key):
         if key in self.nullable and getattr(self, key) == -1:                     # pylint: disable=no-member
             return None
-        return getattr(self, key)
+        return storable(getattr(self, key))
-- 
2.43.0


From 7ba0fe90f65ec1878e4314628ec8ab953c02e49d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:15:48 +0000
Subject: [PATCH 77/84] fix: compare whole directories to find the modules of
 the package context

---
 .../now/collection/prov_deployment/py3module.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_deployment/py3module.py b/capture/noworkflow/now/collection/prov_deployment/py3module.py
index 2024d2c..6bc6019 100644
--- a/capture/noworkflow/now/collection/prov_deployment/py3module.py
+++ b/capture/noworkflow/now/collection/prov_deployment/py3module.py
@@ -5,6 +5,7 @@
 """Python 3 Import Hook"""
 
 import inspect
+import os
 from functools import wraps
 from importlib.machinery import PathFinder, SourceFileLoader
 from importlib.abc import Loader
@@ -42,6 +43,12 @@ def find_file_in_path(path):
     return path
 
 
+def is_inside(path, directory):
+    """Check if path is in the directory or in its subdirectories"""
+    directory = os.path.join(os.path.realpath(directory), "")
+    return os.path.realpath(path).startswith(directory)
+
+
 def create_generic_loader(metascript, loader):
 
     if hasattr(loader, 'exec_module'):  # new module format
@@ -144,7 +151,7 @@ def create_source_loader(metascript, loader):
             with content.use_safe_open():
                 source_path = loader.get_filename(module.__name__)
                 required = 2
-                required -= int(source_path.startswith(metascript.dir))
+                required -= int(is_inside(source_path, metascript.dir))
                 create_module = not metascript.bypass_modules
 
                 if metascript.context >= required:
-- 
2.43.0


From ca6a0741fa4da2f6f89d6c127fa4ec75f1424055 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:18:43 +0000
Subject: [PATCH 78/84] fix: find nothing with an index that does not exist in
 queries of evaluations

---
 capture/noworkflow/now/cmd/cmd_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_evaluation.py b/capture/noworkflow/now/cmd/cmd_evaluation.py
index 3b1a471..e7dc933 100644
--- a/capture/noworkflow/now/cmd/cmd_evaluation.py
+++ b/capture/noworkflow/now/cmd/cmd_evaluation.py
@@ -93,7 +93,7 @@ def query_evaluations(args, prefix=""):
     argindex = getattr(args, prefix + 'index', None)
     if argindex is not None:
         index = argindex- 1 # 1-based index
-        if index > len(result):
+        if not 0 <= index < len(result):
             result = []
         else:
             result = [result[index]]
-- 
2.43.0


From 36dd4f3b5c7dc20c170feba7584ef039bcec3b2b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:18:43 +0000
Subject: [PATCH 79/84] fix: select only the evaluations of the given cell

---
 capture/noworkflow/now/cmd/cmd_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_evaluation.py b/capture/noworkflow/now/cmd/cmd_evaluation.py
index e7dc933..2473409 100644
--- a/capture/noworkflow/now/cmd/cmd_evaluation.py
+++ b/capture/noworkflow/now/cmd/cmd_evaluation.py
@@ -69,7 +69,7 @@ def query_evaluations(args, prefix=""):
             (Activation.m.trial_id == EvaluationM.m.trial_id)
             & (Activation.m.id == EvaluationM.m.activation_id)
         ))
-        filters.append(Activation.m.name.like('<ipython-input-{}%'.format(cell)))
+        filters.append(Activation.m.name.like('<ipython-input-{}-%'.format(cell)))
     code = getattr(args, prefix + 'code', None)
     if code is not None:
         filters.append(CodeComponent.m.name == code)
-- 
2.43.0


From 5d77d60cad98302805a901c3741f4a107c54049e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:33:46 +0000
Subject: [PATCH 80/84] fix: follow the last outputs of notebooks even if they
 are zero or empty

---
 .../now/collection/prov_execution/collector.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b91929c..592db4c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -745,15 +745,15 @@ class Collector(object):
                     ), {}, self.time()
                 )
                 activation.context['Out'] = out
-            if '___' in activation.context:
-                del activation.context['___']
-            if '__' in activation.context:
-                activation.context['___'] = activation.context['__']
-                del activation.context['__']
-            if '_' in activation.context:
-                activation.context['__'] = activation.context['_']
-                del activation.context['_']
-            if value:
+            if value is not None:
+                if '___' in activation.context:
+                    del activation.context['___']
+                if '__' in activation.context:
+                    activation.context['___'] = activation.context['__']
+                    del activation.context['__']
+                if '_' in activation.context:
+                    activation.context['__'] = activation.context['_']
+                    del activation.context['_']
                 activation.context['_'] = evaluation
                 activation.context['_{}'.format(self.ipcell)] = evaluation
                 self.iphistory[self.ipcell] = evaluation
-- 
2.43.0


From 8d339a36d939ecd2c138f5a2b2685794620ce5ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:44:09 +0000
Subject: [PATCH 81/84] fix: use the names of attributes in rules of timestamps

---
 capture/noworkflow/patterns/rules/timestamp_rules.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/patterns/rules/timestamp_rules.py b/capture/noworkflow/patterns/rules/timestamp_rules.py
index 5c053c9..fb3a937 100644
--- a/capture/noworkflow/patterns/rules/timestamp_rules.py
+++ b/capture/noworkflow/patterns/rules/timestamp_rules.py
@@ -50,11 +50,11 @@ def timestamp_id(trial_id, id, timestamp, model_moment):
             return trial(trial_id, finish=timestamp)
 
     model_map = {
-        "start": activation(trial_id, id, start=timestamp),
+        "start": activation(trial_id, id, start_checkpoint=timestamp),
         "finish": evaluation(trial_id, id, checkpoint=timestamp),
         "evaluation": evaluation(trial_id, id, checkpoint=timestamp),
-        "activation": activation(trial_id, id, start=timestamp),
-        "access": access(trial_id, id, timestamp=timestamp),
+        "activation": activation(trial_id, id, start_checkpoint=timestamp),
+        "access": access(trial_id, id, checkpoint=timestamp),
     }
     if model_moment not in model_map:
         return
@@ -76,8 +76,8 @@ def duration_id(trial_id, id, duration, _binds):
         query = trial(trial_id, start=start, finish=finish)
     else:
         query = (
-            evaluation(trial_id, id, moment=finish) &
-            activation(trial_id, id, start=start)
+            evaluation(trial_id, id, checkpoint=finish) &
+            activation(trial_id, id, start_checkpoint=start)
         )
     for result, binds in _apply(_binds, query):
         temp_duration = finish.bound - start.bound
-- 
2.43.0


From 4fc52a78a24f91939514bcf841b2c6d26ffaf18f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:44:09 +0000
Subject: [PATCH 82/84] fix: finish stacks of activations at the activation of
 the script

---
 capture/noworkflow/patterns/rules/temporal_inference_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/patterns/rules/temporal_inference_rules.py b/capture/noworkflow/patterns/rules/temporal_inference_rules.py
index 6ce32ee..b1201af 100644
--- a/capture/noworkflow/patterns/rules/temporal_inference_rules.py
+++ b/capture/noworkflow/patterns/rules/temporal_inference_rules.py
@@ -15,7 +15,7 @@ from .name_rules import name as _name
 
 
 @prolog_rule("activation_stack_id(TrialId, Called, []) :-")
-@prolog_rule("    activation_id(TrialId, nil, Called).")
+@prolog_rule("    activation_id(TrialId, 0, Called).")
 @prolog_rule("activation_stack_id(TrialId, Called, [Caller|Callers]) :-")
 @prolog_rule("    activation_id(TrialId, Caller, Called),")
 @prolog_rule("    activation_stack_id(TrialId, Caller, Callers).")
@@ -27,7 +27,7 @@ def activation_stack_id(trial_id, called, stack, _binds):
     query = evaluation(trial_id, called, activation_id=caller)
     for result, binds in _apply(_binds, query):
         caller_id = _get_value(caller)
-        if caller_id is None:
+        if not caller_id:
             if _match(stack, [], binds):
                 yield result, binds
             continue
-- 
2.43.0


From 8dcff3f5012c4c8a9a83fbdf290c99f3631443e7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:48:03 +0000
Subject: [PATCH 83/84] fix: keep the values of variables while rules are
 explored

---
 capture/noworkflow/patterns/machinery.py      | 21 ++++++++++++-------
 capture/noworkflow/patterns/rules/helpers.py  | 13 ++++++++++++
 .../rules/temporal_inference_rules.py         |  9 ++++----
 .../patterns/rules/timestamp_rules.py         |  4 ++--
 4 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/capture/noworkflow/patterns/machinery.py b/capture/noworkflow/patterns/machinery.py
index b153341..8a976eb 100644
--- a/capture/noworkflow/patterns/machinery.py
+++ b/capture/noworkflow/patterns/machinery.py
@@ -181,25 +181,27 @@ class RuleQuery(BoundQuery):
         self.values = values
         self.has_binds = has_binds
         self.unbound_options = unbound_options
+        self.explored = []
 
     def apply_function(self, values):
         """Apply function to values"""
         kwargs = {}
         if self.has_binds:
             kwargs["_binds"] = self.binds
+        values = list(values)
+        unbound = [
+            value for value in values
+            if isinstance(value, Variable) and value.bound is BLANK
+        ]
         func_result = self.func(*values, **kwargs)
         if func_result is not None:
             for result, binds in func_result:
                 if binds is not self.binds:
                     self.binds.update(binds)
                 yield result
-
-                for pattern in self.binds:
-                    pattern.bound = BLANK
-        for pattern in self.binds:
+        for pattern in unbound:
             pattern.bound = BLANK
 
-
     def get_bound(self, result, attr):
         """Get bound value in result"""
         if attr in self.patterns:
@@ -224,11 +226,13 @@ class RuleQuery(BoundQuery):
             prevalue = new_values[self.args[arg]]
             val = self.process_value(arg, prevalue)
             if val is not BLANK and val != bind[i]:
-                # Variable bound to a different value
-                return None
+                if bind[i] is not BLANK or val in self.unbound_options[arg]:
+                    # Variable bound to a different value
+                    return None
             elif val != bind[i] and isinstance(prevalue, Variable):
                 prevalue.bound = bind[i]
                 self.binds[prevalue] = bind[i]
+                self.explored.append(prevalue)
             if bind[i] is not BLANK:
                 new_values[self.args[arg]] = bind[i]
         return map(self.final_value, new_values)
@@ -244,6 +248,9 @@ class RuleQuery(BoundQuery):
             if new_values is not None:
                 for result in self.apply_function(new_values):
                     yield result
+            for pattern in self.explored:
+                pattern.bound = BLANK
+            self.explored = []
         if not explored:
             for result in self.apply_function(self.values):
                 yield result
diff --git a/capture/noworkflow/patterns/rules/helpers.py b/capture/noworkflow/patterns/rules/helpers.py
index ef6510d..f1cd1ad 100644
--- a/capture/noworkflow/patterns/rules/helpers.py
+++ b/capture/noworkflow/patterns/rules/helpers.py
@@ -74,6 +74,19 @@ def _match(value1, value2, _binds):
     return value1 == value2
 
 
+def _matching(value1, value2, _binds):
+    """Match values, and unbind variables after using the match"""
+    unbound = [
+        value for value in (value1, value2)
+        if isinstance(value, Variable) and value.bound is BLANK
+    ]
+    if _match(value1, value2, _binds):
+        yield _binds
+    for value in unbound:
+        value.bound = BLANK
+        _binds.pop(value, None)
+
+
 def _create_list(element, size):
     """Create list for element of specific size"""
     if isinstance(element, list):
diff --git a/capture/noworkflow/patterns/rules/temporal_inference_rules.py b/capture/noworkflow/patterns/rules/temporal_inference_rules.py
index b1201af..f8c6178 100644
--- a/capture/noworkflow/patterns/rules/temporal_inference_rules.py
+++ b/capture/noworkflow/patterns/rules/temporal_inference_rules.py
@@ -8,7 +8,7 @@
 
 from ..machinery import prolog_rule, create_rule, restrict_rule, var
 from ..models import evaluation, access
-from .helpers import _apply, _get_value, _match, member, once
+from .helpers import _apply, _get_value, _matching, member, once
 from .timestamp_rules import successor_id
 from .mode_access_rules import read_mode, write_mode
 from .name_rules import name as _name
@@ -28,13 +28,14 @@ def activation_stack_id(trial_id, called, stack, _binds):
     for result, binds in _apply(_binds, query):
         caller_id = _get_value(caller)
         if not caller_id:
-            if _match(stack, [], binds):
+            for _ in _matching(stack, [], binds):
                 yield result, binds
             continue
         new_stack = var("_new_stack")
         new_query = activation_stack_id(trial_id, caller_id, new_stack)
         for _, binds2 in _apply(binds, new_query):
-            if _match(stack, [caller_id] + _get_value(new_stack), binds2):
+            callers = [caller_id] + _get_value(new_stack)
+            for _ in _matching(stack, callers, binds2):
                 yield result, binds2
 
 
@@ -80,7 +81,7 @@ def access_stack_id(trial_id, file, stack, _binds):
     )
     for result, binds in _apply(_binds, query):
         new_list = [_get_value(activation_id)] + _get_value(activation_stack)
-        if _match(stack, new_list, binds):
+        for _ in _matching(stack, new_list, binds):
             yield result, binds
 
 
diff --git a/capture/noworkflow/patterns/rules/timestamp_rules.py b/capture/noworkflow/patterns/rules/timestamp_rules.py
index fb3a937..c160a3a 100644
--- a/capture/noworkflow/patterns/rules/timestamp_rules.py
+++ b/capture/noworkflow/patterns/rules/timestamp_rules.py
@@ -10,7 +10,7 @@ from ..machinery import prolog_rule, create_rule, restrict_rule, BLANK, var
 from ..machinery import set_options_in_rule
 from ..models import evaluation, activation, access
 from ..models import trial
-from .helpers import _apply, _match
+from .helpers import _apply, _match, _matching
 from .name_rules import name as _name
 
 
@@ -81,7 +81,7 @@ def duration_id(trial_id, id, duration, _binds):
         )
     for result, binds in _apply(_binds, query):
         temp_duration = finish.bound - start.bound
-        if _match(temp_duration, duration, binds):
+        for _ in _matching(temp_duration, duration, binds):
             yield result, binds
 
 
-- 
2.43.0


From d5dca5f28d9618407c97ce7e1b1c303a94a86624 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:48:03 +0000
Subject: [PATCH 84/84] fix: match all modes that read and write files

---
 .../noworkflow/patterns/rules/mode_access_rules.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/patterns/rules/mode_access_rules.py b/capture/noworkflow/patterns/rules/mode_access_rules.py
index ac237b6..91089ef 100644
--- a/capture/noworkflow/patterns/rules/mode_access_rules.py
+++ b/capture/noworkflow/patterns/rules/mode_access_rules.py
@@ -6,16 +6,26 @@
 # pylint: disable=invalid-name, redefined-builtin, redefined-outer-name
 # pylint: disable=no-value-for-parameter
 
+from itertools import permutations
+
 from ..machinery import prolog_rule, create_rule, restrict_rule, BLANK, var
 from ..models import evaluation, access, code_component
 from .name_rules import name as _name
 
 
+_MODES = [
+    "".join(mode)
+    for extra in ("", "b", "t", "+", "b+", "t+")
+    for base in "rwxa"
+    for mode in permutations(base + extra)
+]
+
+
 @prolog_rule("read_mode(Mode) :-")
 @prolog_rule("    sub_atom(Mode, _, _, _, 'r').")
 @prolog_rule("read_mode(Mode) :-")
 @prolog_rule("    sub_atom(Mode, _, _, _, '+').")
-@restrict_rule(mode=["r", "r+", "a+"])
+@restrict_rule(mode=[mode for mode in _MODES if set(mode) & set("r+")])
 @create_rule
 def read_mode(mode, _binds):
     """read modes: r, a, +"""
@@ -31,7 +41,7 @@ def read_mode(mode, _binds):
 @prolog_rule("    sub_atom(Mode, _, _, _, 'a').")
 @prolog_rule("write_mode(Mode) :-")
 @prolog_rule("    sub_atom(Mode, _, _, _, '+').")
-@restrict_rule(mode=["w", "w+", "x", "x+", "a", "a+"])
+@restrict_rule(mode=[mode for mode in _MODES if set(mode) & set("wxa+")])
 @create_rule
 def write_mode(mode, _binds):
     """write modes: w, x, a, +"""
-- 
2.43.0

