From 196f886b0c6a78d056c4f93bfa1a4a51f7c8fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 01/29] fix: report OK and exit with 0 only when no diagnostics
 were found

---
 ginko/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..21dcbd9 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -37,9 +37,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     }
 
     if has_errors {
+        exit(1);
+    } else {
         println!("OK; No issues found");
         exit(0);
-    } else {
-        exit(1);
     }
 }
-- 
2.43.0


From 2d4f0d0ff46f48e50079c8f39d5b138c9beabc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 02/29] fix: name the expected token kind, not the found one,
 in diagnostics

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..87ecd7d 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -444,7 +444,7 @@ where
                     Err(Diagnostic::expected(
                         prev_pos.as_span(),
                         self.source(),
-                        &[token.kind],
+                        &[kind],
                     ))
                 }
             }
-- 
2.43.0


From 0c2d1a0adc70bb299b1e338849fbf759581f67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 03/29] fix: keep already collected diagnostics when parsing
 fails unrecoverably

---
 ginko/src/dts/project.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..cf08aa7 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -40,9 +40,13 @@ impl ProjectFile {
         }
     }
 
-    pub fn unrecoverable(err: Diagnostic, source: String, file_type: FileType) -> ProjectFile {
+    pub fn unrecoverable(
+        diagnostics: Vec<Diagnostic>,
+        source: String,
+        file_type: FileType,
+    ) -> ProjectFile {
         ProjectFile {
-            parser_diagnostics: vec![err],
+            parser_diagnostics: diagnostics,
             analysis_diagnostics: vec![],
             file: None,
             source,
@@ -260,8 +264,11 @@ impl Project {
                 );
             }
             Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                parser.diagnostics.push(err);
+                self.files.insert(
+                    file_name,
+                    ProjectFile::unrecoverable(parser.diagnostics, text, file_type),
+                );
             }
         };
     }
-- 
2.43.0


From 3ef694e33dbbefa8ab66aaa99b7a104d2fb6b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 04/29] fix: only yield directive references that the cursor is
 on

---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From 33057e9da8da4f1e5a871da28cbbfe587d09fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 05/29] fix: report unresolved references in /omit-if-no-ref/
 directives

---
 ginko/src/dts/analysis.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..e95d1eb 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -143,7 +143,10 @@ impl Analysis {
                         ctx.first_non_include = true;
                         ctx.is_plugin = true
                     }
-                    AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
+                    AnyDirective::OmitIfNoRef(_, reference) => {
+                        self.resolve_reference(&mut ctx, reference);
+                        ctx.first_non_include = true
+                    }
                     AnyDirective::DeletedNode(_, reference) => {
                         self.resolve_reference(&mut ctx, reference);
                     }
-- 
2.43.0


From 56fcbc976ee8d4d0a4f322768f13db6a2b82400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 06/29] fix: report a /dts-v1/ header that is placed after a
 /delete-node/ directive

---
 ginko/src/dts/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index e95d1eb..6f7f2bc 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -149,6 +149,7 @@ impl Analysis {
                     }
                     AnyDirective::DeletedNode(_, reference) => {
                         self.resolve_reference(&mut ctx, reference);
+                        ctx.first_non_include = true
                     }
                 },
                 Primary::Root(root_node) => {
-- 
2.43.0


From 855f08d2c16002114981d8c78f88bfe42d9efc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 07/29] fix: accept references to labels that start with an
 underscore

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 87ecd7d..19f70e1 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -95,7 +95,7 @@ where
                     source: self.source(),
                 })
             }
-            b'a'..=b'z' | b'A'..=b'Z' => {
+            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-- 
2.43.0


From 3914806d9bd55112e53b026b4830719902e019db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 08/29] fix: keep non-ASCII characters in strings intact

---
 ginko/src/dts/tokens/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 19f70e1..c3eb842 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -216,13 +216,13 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Option<Token> {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut str: Vec<u8> = vec![];
         loop {
             let ch = self.reader.consume()?;
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        str.push(b'\\');
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -230,12 +230,12 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        str.push(b'"');
                         is_escaped = false;
                     } else {
                         return Some(Token {
                             span: pos.to(self.reader.pos()),
-                            kind: TokenKind::String(str),
+                            kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
                         });
                     }
@@ -244,7 +244,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    str.push(ch)
                 }
             }
         }
-- 
2.43.0


From fffc0da57366c529e8e52b78b5719afee244b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 09/29] fix: do not silently drop unterminated strings,
 comments and references

---
 ginko/src/dts/tokens/lexer.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index c3eb842..e34e8d2 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -79,16 +79,29 @@ where
         self.reader.pos()
     }
 
+    // A construct, starting with the given byte, that the end of the file cuts off.
+    fn unterminated(&self, start: Position, opening: u8) -> Token {
+        Token {
+            span: start.to(self.reader.pos()),
+            kind: TokenKind::Unknown(opening),
+            source: self.source(),
+        }
+    }
+
     // precondition: cursor is past '&' token
     // x = <&ref>
     //       ^~~ cursor is here
     fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
+        let Some(ch) = self.reader.peek() else {
+            return Some(self.unterminated(start, b'&'));
+        };
         match ch {
             b'{' => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
+                if self.reader.consume().is_none() {
+                    return Some(self.unterminated(start, b'&'));
+                }
                 Some(Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
@@ -165,7 +178,9 @@ where
     fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'/'));
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
@@ -218,7 +233,9 @@ where
         let mut is_escaped: bool = false;
         let mut str: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'"'));
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
-- 
2.43.0


From 8d8a484296913c6a0fa887390afa611e98c56535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 10/29] fix: resolve labels of nodes that are re-opened without
 a label

---
 ginko/src/dts/analysis.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 6f7f2bc..c1e6450 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -14,7 +14,7 @@ use std::sync::Arc;
 /// Used when analyzing a device-tree
 #[derive(Clone)]
 enum Labeled {
-    Node(Arc<Node>),
+    Node(Path, Arc<Node>),
     #[allow(unused)]
     Property(Arc<Property>),
 }
@@ -47,7 +47,7 @@ pub struct AnalysisResult {
 impl AnalysisContext {
     pub fn get_node_by_label(&self, label: &str) -> Option<&Arc<Node>> {
         match self.labels.get(label) {
-            Some(Labeled::Node(node)) => Some(node),
+            Some(Labeled::Node(_, node)) => Some(node),
             _ => None,
         }
     }
@@ -82,9 +82,10 @@ impl FileContext<'_> {
     }
 
     pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+        match self.labels.get(label) {
+            Some(Labeled::Node(path, node)) => Some((path, node)),
+            _ => None,
+        }
     }
 }
 
@@ -284,8 +285,10 @@ impl Analysis {
 
     pub fn analyze_node(&mut self, ctx: &mut FileContext<'_>, node: Arc<Node>, path: Path) {
         if let Some(label) = &node.label {
-            ctx.labels
-                .insert(label.item().clone(), Labeled::Node(node.clone()));
+            ctx.labels.insert(
+                label.item().clone(),
+                Labeled::Node(path.clone(), node.clone()),
+            );
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From b7b66717b193221e62701c1335873826a9915ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 11/29] fix: apply the last content change and tolerate an
 empty list of changes

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..46c65e2 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -155,12 +155,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Changes are applied in order; with full synchronization, the last one wins.
+        let Some(change) = params.content_changes.into_iter().last() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 61dfc9824cfe53f850a7da2d0486a1f788ded56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 12/29] fix: do not panic on files that are not present on disk

---
 ginko/src/dts/project.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index cf08aa7..60823f7 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -75,6 +75,12 @@ impl ProjectFile {
     }
 }
 
+/// The key that identifies a file within a project.
+/// This is the canonical path, or the path itself when the file does not exist on disk.
+fn file_key(path: &Path) -> PathBuf {
+    dunce::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
+}
+
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
@@ -107,10 +113,9 @@ impl Project {
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
     ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
+    /// `file_name` does not need to exist on disk (i.e., for files that are not saved yet).
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = file_key(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -163,9 +168,7 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&file_key(path));
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -297,10 +300,7 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&file_key(path))
     }
 }
 
-- 
2.43.0


From 7e613043a3481d57882ce92e7f27a31a21af0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 13/29] fix: retract the diagnostics of closed files

---
 ginko_ls/src/server.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 46c65e2..01f7f64 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -173,6 +173,10 @@ impl LanguageServer for Backend {
             return;
         };
         self.project.write().remove_file(&file_path);
+        // The file is no longer part of the project; retract its diagnostics.
+        if let Ok(url) = Url::from_file_path(&file_path) {
+            self.client.publish_diagnostics(url, vec![], None).await
+        }
     }
 
     async fn goto_definition(
-- 
2.43.0


From 6850e26879fc70159313403ffe896376dbcc479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 14/29] fix: honour the --include option of the language server

---
 ginko_ls/src/main.rs   |  4 ++--
 ginko_ls/src/server.rs | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/main.rs b/ginko_ls/src/main.rs
index c63f730..e62a90b 100644
--- a/ginko_ls/src/main.rs
+++ b/ginko_ls/src/main.rs
@@ -12,7 +12,7 @@ struct Args {
 
 #[tokio::main]
 pub async fn main() {
-    Args::parse();
+    let includes = Args::parse().include.unwrap_or_default();
     // Log to stderr instead of stdout since communication with the language server client
     // happens through stdout
     tracing_subscriber::fmt()
@@ -21,6 +21,6 @@ pub async fn main() {
 
     let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
 
-    let (service, socket) = LspService::new(server::Backend::new);
+    let (service, socket) = LspService::new(|client| server::Backend::new(client, includes));
     Server::new(stdin, stdout, socket).serve(service).await;
 }
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 01f7f64..8a06588 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -16,16 +16,25 @@ pub(crate) struct Backend {
     client: Client,
     project: RwLock<Project>,
     severities: SeverityMap,
+    /// include paths from the command line
+    includes: Vec<String>,
 }
 
 impl Backend {
-    pub fn new(client: Client) -> Backend {
+    pub fn new(client: Client, includes: Vec<String>) -> Backend {
         Backend {
             client,
             project: RwLock::new(Project::default()),
             severities: SeverityMap::default(),
+            includes,
         }
     }
+
+    fn configure(&self, config: ProjectConfig) {
+        let mut includes = self.includes.clone();
+        includes.extend(config.includes);
+        self.project.write().set_include_paths(includes);
+    }
 }
 
 #[derive(Deserialize, Serialize, Default, Debug)]
@@ -110,7 +119,7 @@ impl Backend {
 impl LanguageServer for Backend {
     async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
         let config = ProjectConfig::from_value(params.initialization_options.unwrap_or_default());
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
 
         Ok(InitializeResult {
             server_info: None,
@@ -128,7 +137,7 @@ impl LanguageServer for Backend {
 
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let config = ProjectConfig::from_value(params.settings);
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From ce1160a873684d437455435d6f89f4d8e3d888b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 15/29] fix: print byte strings with two digits per byte

---
 ginko/src/dts/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index a46cfcb..4164037 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -258,7 +258,7 @@ impl Display for PropertyValue {
                 write!(f, "[")?;
                 for (i, numbers) in strings.iter().enumerate() {
                     for num in &numbers.item {
-                        write!(f, "{num:2x}")?;
+                        write!(f, "{num:02x}")?;
                     }
                     if i != strings.len() - 1 {
                         write!(f, " ")?;
-- 
2.43.0


From 6e6cfb6522f2bdd455b136c574320e00c2d4103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 16/29] fix: print only one semicolon after a memory
 reservation

---
 ginko/src/dts/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 4164037..fcabd39 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -499,7 +499,7 @@ impl Display for AnyDirective {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             AnyDirective::DtsHeader(_) => write!(f, "/dts-v1/;"),
-            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve};"),
+            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve}"),
             AnyDirective::Include(include) => write!(f, "{include}"),
             AnyDirective::Plugin(_) => write!(f, "/plugin/;"),
             AnyDirective::DeletedNode(_, reference) => write!(f, "/delete-node/ {reference};"),
-- 
2.43.0


From 8e3f65f37878caa222d3448437ba48a10cd69ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 17/29] fix: print the semicolon after delete directives inside
 nodes

---
 ginko/src/dts/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index fcabd39..0834a97 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -358,9 +358,9 @@ impl Display for NodeItem {
         match self {
             NodeItem::Property(property) => write!(f, "{}", property),
             NodeItem::Node(node) => write!(f, "{}", node),
-            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {}", node_name),
+            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {};", node_name),
             NodeItem::DeletedProperty(_, property_name) => {
-                write!(f, "/delete-property/ {}", property_name)
+                write!(f, "/delete-property/ {};", property_name)
             }
         }
     }
-- 
2.43.0


From a4c40f135b743159bc79b9be6fdf85b733d5e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 18/29] fix: print property labels and /omit-if-no-ref/ on
 nodes

---
 ginko/src/dts/ast.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 0834a97..ddae159 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -322,6 +322,9 @@ impl Property {
 
 impl Display for Property {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if let Some(label) = &self.label {
+            write!(f, "{}: ", label.item)?;
+        }
         if self.values.is_empty() {
             writeln!(f, "{};", self.name)
         } else {
@@ -395,6 +398,9 @@ impl HasSpan for Node {
 
 impl Display for Node {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if self.omit_if_no_ref.is_some() {
+            write!(f, "/omit-if-no-ref/ ")?;
+        }
         if let Some(label) = &self.label {
             write!(f, "{}: ", label.item)?;
         }
-- 
2.43.0


From bb39cefcc1c7977954ed538b49e8c8086eacda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 19/29] fix: enumerate project files in a stable order

---
 ginko/src/dts/project.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 60823f7..af528cb 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -83,7 +83,7 @@ fn file_key(path: &Path) -> PathBuf {
 
 #[derive(Default)]
 pub struct Project {
-    files: HashMap<PathBuf, ProjectFile>,
+    files: BTreeMap<PathBuf, ProjectFile>,
     pub include_paths: Vec<PathBuf>,
     pub severities: SeverityMap,
 }
-- 
2.43.0


From ca9522b5712cb57612f5e3a60488c49592c53cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 20/29] fix: ignore include paths that do not exist instead of
 searching the working directory

---
 ginko/src/dts/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index af528cb..276063c 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -92,7 +92,7 @@ impl Project {
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
-            .map(|path| dunce::canonicalize(path).unwrap_or_default())
+            .filter_map(|path| dunce::canonicalize(path).ok())
             .collect::<Vec<PathBuf>>();
     }
 
-- 
2.43.0


From 24e307c6df7b785a9474d149369fc31f36714fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 21/29] fix: analyze included files before the files that
 include them

---
 ginko/src/dts/project.rs | 59 ++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 276063c..ea1d495 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -136,35 +136,40 @@ impl Project {
         }
     }
 
-    /// Computes the order in which files must be analyzed.
-    /// inefficient at the moment at O(n^3)
+    /// Computes the order in which files must be analyzed:
+    /// a file comes after all files that it includes (unless they include each other).
     fn compute_key_order(&self) -> Vec<PathBuf> {
-        let mut map: HashMap<_, Vec<_>> = HashMap::new();
-        for (path, file) in &self.files {
-            let Some(dts_file) = &file.file else { continue };
-            map.entry(path.clone()).or_default();
-            let includes = dts_file
-                .elements
-                .iter()
-                .filter_map(|el| el.as_include())
-                .map(|incl| incl.path())
-                .collect_vec();
-            for include in includes.into_iter().flatten() {
-                map.entry(include).or_default().push(path.clone())
-            }
+        let mut visited = HashSet::new();
+        let mut order = Vec::with_capacity(self.files.len());
+        for path in self.files.keys() {
+            self.push_after_includes(path, &mut visited, &mut order);
         }
-        // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
-                }
-            }
+        order
+    }
+
+    fn push_after_includes(
+        &self,
+        path: &Path,
+        visited: &mut HashSet<PathBuf>,
+        order: &mut Vec<PathBuf>,
+    ) {
+        let Some((path, file)) = self.files.get_key_value(path) else {
+            return;
+        };
+        if !visited.insert(path.clone()) {
+            return;
+        }
+        let includes = file
+            .file
+            .iter()
+            .flat_map(|dts_file| &dts_file.elements)
+            .filter_map(|el| el.as_include())
+            .filter_map(|include| include.path().ok())
+            .collect_vec();
+        for include in includes {
+            self.push_after_includes(&include, visited, order);
         }
-        current_order
+        order.push(path.clone());
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-- 
2.43.0


From 0cba52aa5310fda1ab42e75d6db4a9f0121cf4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 22/29] fix: report the same include cycle on every run

---
 ginko/src/dts/import_guard.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/import_guard.rs b/ginko/src/dts/import_guard.rs
index d830ff3..4e0f70b 100644
--- a/ginko/src/dts/import_guard.rs
+++ b/ginko/src/dts/import_guard.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
 use std::fmt::Debug;
 use std::hash::Hash;
 
@@ -23,15 +23,15 @@ impl<V> CyclicDependencyError<V> {
 #[derive(Default, Debug)]
 pub struct ImportGuard<V>
 where
-    V: Hash + Eq + Clone,
+    V: Hash + Eq + Ord + Clone,
 {
-    nodes: HashMap<V, HashSet<V>>,
+    nodes: HashMap<V, BTreeSet<V>>,
     back_track: HashMap<V, HashSet<V>>,
 }
 
 impl<V> ImportGuard<V>
 where
-    V: Hash + Eq + Clone,
+    V: Hash + Eq + Ord + Clone,
 {
     /// Adds an element to the checker. This will return `Ok(())`,
     /// if there are no cyclic dependencies and an error containing the import cycle, if there are
-- 
2.43.0


From 3f5e30d44291402fa4f1b1812c1f345ebb4d608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 23/29] fix: reject a sign in byte strings

---
 ginko/src/dts/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..7f103d2 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -283,6 +283,15 @@ where
                     ));
                     return Ok(WithToken::new(vec![], tok));
                 }
+                // `from_str_radix` below would accept a leading '+'
+                if !raw_str.bytes().all(|ch| ch.is_ascii_hexdigit()) {
+                    self.diagnostics.push(Diagnostic::from_token(
+                        tok.clone(),
+                        ErrorCode::IntError,
+                        "invalid digit found in string",
+                    ));
+                    return Ok(WithToken::new(vec![], tok));
+                }
                 let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
                 for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
                     match u8::from_str_radix(std::str::from_utf8(&[first, second]).unwrap(), 16) {
-- 
2.43.0


From 97ce95fb8e7870e79743d425736efa00ece9a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 24/29] fix: count columns in UTF-16 code units like the
 language server protocol does

---
 ginko/src/dts/reader.rs       | 4 ++++
 ginko/src/dts/tokens/lexer.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..ac65fe0 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -52,6 +52,10 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
+            // UTF-8 continuation bytes are part of the character that they continue
+            0x80..=0xBF => {}
+            // Characters with four bytes take two UTF-16 code units
+            0xF0..=0xFF => self.pos = Position::new(self.pos.line(), self.pos.character() + 2),
             _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
         }
         Some(ch)
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index e34e8d2..ff34c23 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -375,7 +375,12 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                let token = simple_token(Unknown(ch));
+                // the rest of a character that is not ASCII
+                while self.reader.skip_if(|ch| matches!(ch, 0x80..=0xBF)) {}
+                token
+            }
         }
     }
 }
-- 
2.43.0


From 792dadbe46a8af9fe964f1672748acf95d6d9ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 25/29] fix: print diagnostics that span multiple lines

---
 ginko/src/dts/diagnostics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..415c7a8 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -172,7 +172,6 @@ impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
@@ -198,11 +197,13 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
-            1
+        let end_character = if start.line() == end.line() {
+            end.character()
         } else {
-            end.character() - start.character()
+            // mark the rest of the first line
+            line.chars().count() as u32
         };
+        let len = end_character.saturating_sub(start.character()).max(1);
         write!(
             f,
             "{} | {}{}",
-- 
2.43.0


From 1d9238a463c8052d07fa71da09d509a4d4b9ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 26/29] fix: reject nodes that are nested too deeply instead of
 overflowing the stack

---
 ginko/src/dts/parser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 7f103d2..5b03054 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -24,10 +24,16 @@ where
     R: Reader + Sized,
 {
     lexer: PeekingLexer<R>,
+    /// How many nodes surround the current position
+    depth: usize,
     pub diagnostics: Vec<Diagnostic>,
     pub context: ParserContext,
 }
 
+/// Nodes that are nested deeper than this are rejected.
+/// All algorithms on nodes are recursive, so this bounds the required stack size.
+const MAX_NODE_DEPTH: usize = 128;
+
 type Result<T> = std::result::Result<T, Diagnostic>;
 
 impl<R> Parser<R>
@@ -37,6 +43,7 @@ where
     pub fn new(lexer: Lexer<R>, context: ParserContext) -> Parser<R> {
         Parser {
             lexer: PeekingLexer::from(lexer),
+            depth: 0,
             diagnostics: vec![],
             context,
         }
@@ -52,6 +59,7 @@ impl Parser<ByteReader> {
         let lexer = Lexer::from_text(text, source);
         Parser {
             lexer: lexer.into(),
+            depth: 0,
             diagnostics: vec![],
             context,
         }
@@ -536,7 +544,17 @@ where
                     node_discovered = true;
                     let node_name: WithToken<NodeName> = From::from(ident);
                     self.check_is_node_name(node_name.span(), &node_name);
+                    if self.depth >= MAX_NODE_DEPTH {
+                        return Err(Diagnostic::new(
+                            node_name.span(),
+                            self.lexer.source(),
+                            ErrorCode::ParserError,
+                            "Nodes are nested too deeply",
+                        ));
+                    }
+                    self.depth += 1;
                     let payload = self.node_payload()?;
+                    self.depth -= 1;
                     items.push(NodeItem::Node(Arc::new(Node {
                         omit_if_no_ref,
                         name: node_name,
-- 
2.43.0


From 11d3b2f8791dec82e64725f53bc67f848955e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:35 +0000
Subject: [PATCH 27/29] fix: report a label or /omit-if-no-ref/ that nothing
 follows

---
 ginko/src/dts/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 5b03054..fe3a80f 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -526,6 +526,13 @@ where
             let ident = match &tok.kind {
                 TokenKind::Ident(string) => WithToken::new(string.clone(), tok),
                 TokenKind::CloseBrace => {
+                    if label.is_some() || omit_if_no_ref.is_some() {
+                        self.diagnostics.push(Diagnostic::expected(
+                            tok.span(),
+                            tok.source(),
+                            &[TokenKind::Ident("".to_string())],
+                        ));
+                    }
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
                 }
-- 
2.43.0


From e576932f2e2163567633787dadd24ad763b353e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:19 +0000
Subject: [PATCH 28/29] fix: report illegal characters of unit addresses and
 path elements at their position

---
 ginko/src/dts/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index fe3a80f..fa7c7ae 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -148,8 +148,10 @@ where
             NameContext::NodeName,
         );
         if let Some(unit_address) = &name.unit_address {
+            // the unit address starts after the name and the '@'
+            let offset = name.name.encode_utf16().count() as i32 + 1;
             self.check_ident(
-                span,
+                span.extend_start(offset),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -186,10 +188,16 @@ where
                         "Path cannot be empty",
                     ));
                 }
-                let path = Path::from(path.as_str());
-                for el in path.iter() {
-                    self.check_is_node_name(token.span(), el);
+                // the elements start after the leading '&{'
+                let mut offset = 2;
+                for el in path.split('/') {
+                    if !el.is_empty() {
+                        let span = token.span().extend_start(offset);
+                        self.check_is_node_name(span, &NodeName::from(el));
+                    }
+                    offset += el.encode_utf16().count() as i32 + 1;
                 }
+                let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
-- 
2.43.0


From 1f0291ef2049c5b4eb6cb0d0a2fbf41110745cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:26 +0000
Subject: [PATCH 29/29] fix: escape quotes and backslashes when printing
 strings

---
 ginko/src/dts/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index ddae159..1be3708 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -241,7 +241,8 @@ impl Display for PropertyValue {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self {
             PropertyValue::String(string) => {
-                write!(f, "\"{string}\"")
+                let escaped = string.replace('\\', "\\\\").replace('"', "\\\"");
+                write!(f, "\"{escaped}\"")
             }
             PropertyValue::Cells(_, numbers, _) => {
                 write!(f, "<")?;
-- 
2.43.0

