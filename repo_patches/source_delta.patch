From 9351cfcc546584ea4ba4dcd613092d5a88e40840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 01/51] fix: keep every dimension of a multi-dimensional array

---
 src/data_model.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 67bb626..0ac6aba 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2686,6 +2686,7 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
 
 #[derive(Debug)]
 pub struct Dimensions {
+    pub count: usize,
     pub node_context: NodeContext,
 }
 
@@ -2693,7 +2694,14 @@ impl Dimensions {
     pub fn new(node: Node) -> Self {
         assert_check(node, "dimensions");
 
+        let mut cursor = node.walk();
+        let count = node
+            .children(&mut cursor)
+            .filter(|c| c.kind() == "[")
+            .count();
+
         Self {
+            count,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2702,7 +2710,7 @@ impl Dimensions {
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]"));
+            result.push(b.txt("[]".repeat(self.count)));
         });
     }
 }
-- 
2.43.0


From da878c5b00c17ac696098e7dc330c7d9c84df996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 02/51] fix: keep array dimensions written after a variable or
 method name

---
 src/data_model.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 0ac6aba..54379be 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -137,8 +137,8 @@ pub struct MethodDeclaration {
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
+    pub dimensions: Option<Dimensions>,
     pub body: Option<Block>,
-    //pub dimensions
     pub node_context: NodeContext,
 }
 
@@ -151,6 +151,7 @@ impl MethodDeclaration {
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             body: node.try_c_by_n("body").map(|n| Block::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -168,6 +169,9 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             result.push(b.txt(" "));
             result.push(self.name.build(b));
             result.push(self.formal_parameters.build(b));
+            if let Some(ref d) = self.dimensions {
+                result.push(d.build(b));
+            }
 
             if let Some(ref n) = self.body {
                 result.push(b.txt(" "));
@@ -1199,7 +1203,7 @@ impl<'a> DocBuild<'a> for LocalVariableDeclaration {
 #[derive(Debug)]
 pub struct VariableDeclarator {
     pub name: ValueNode,
-    //pub dimenssions
+    pub dimensions: Option<Dimensions>,
     pub op: Option<ValueNode>,
     pub value: Option<VariableInitializer>,
     pub is_value_child_a_query_node: bool,
@@ -1219,6 +1223,7 @@ impl VariableDeclarator {
 
         Self {
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             op,
             value,
             is_value_child_a_query_node,
@@ -1232,6 +1237,9 @@ impl<'a> DocBuild<'a> for VariableDeclarator {
         // TODO: handle dotted expression use-case
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let mut docs = vec![self.name.build(b)];
+            if let Some(ref d) = self.dimensions {
+                docs.push(d.build(b));
+            }
 
             if self.value.is_none() {
                 result.push(b.concat(docs));
-- 
2.43.0


From 1be4aecd10dbe31dc7270f38ec63eb5211ceefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 03/51] fix: keep modifiers and dimensions of an enhanced for
 variable

---
 src/data_model.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 54379be..e45340e 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1563,10 +1563,10 @@ impl<'a> DocBuild<'a> for ForStatement {
 
 #[derive(Debug)]
 pub struct EnhancedForStatement {
-    //pub modifiers: Option<Modifiers>,
+    pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
-    //pub dimension
+    pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
     pub node_context: NodeContext,
@@ -1576,12 +1576,11 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
-        //let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
-
         Self {
-            //modifiers,
+            modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             value: Expression::new(node.c_by_n("value")),
             body: Statement::new(node.c_by_n("body")),
             node_context: NodeContext::with_punctuation(&node),
@@ -1593,9 +1592,15 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for ("));
+            if let Some(ref n) = self.modifiers {
+                result.push(n.build(b));
+            }
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
+            if let Some(ref d) = self.dimensions {
+                result.push(d.build(b));
+            }
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-- 
2.43.0


From 53d09ffd933947100a07b9e015109cba11507a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 04/51] fix: do not merge a sign operator with the sign of its
 operand

---
 src/data_model.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index e45340e..4bcffd5 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2142,6 +2142,7 @@ impl<'a> DocBuild<'a> for WhileStatement {
 pub struct UnaryExpression {
     pub operator: String,
     pub operand: Box<Expression>,
+    pub is_operand_starting_with_operator: bool,
     pub node_context: NodeContext,
 }
 
@@ -2150,9 +2151,14 @@ impl UnaryExpression {
         assert_check(node, "unary_expression");
 
         let operator = node.cvalue_by_n("operator");
+        let operand_node = node.c_by_n("operand");
+        let is_operand_starting_with_operator = matches!(operator.as_str(), "+" | "-")
+            && operand_node.value().starts_with(&operator);
+
         Self {
             operator,
-            operand: Box::new(Expression::new(node.c_by_n("operand"))),
+            operand: Box::new(Expression::new(operand_node)),
+            is_operand_starting_with_operator,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2162,6 +2168,10 @@ impl<'a> DocBuild<'a> for UnaryExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.operator));
+            // "- -a" must not become "--a"
+            if self.is_operand_starting_with_operator {
+                result.push(b.txt(" "));
+            }
             result.push(self.operand.build(b));
         });
     }
-- 
2.43.0


From 16003fef502cc8a656125019743a658ba7222e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 05/51] fix: keep every object of a SOQL FROM clause

---
 src/data_model.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 4bcffd5..58b25d9 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4312,7 +4312,7 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
 
 #[derive(Debug)]
 pub struct FromClause {
-    pub content: StorageVariant,
+    pub contents: Vec<StorageVariant>,
     pub node_context: NodeContext,
 }
 
@@ -4321,7 +4321,11 @@ impl FromClause {
         assert_check(node, "from_clause");
 
         Self {
-            content: StorageVariant::new(node.first_c()),
+            contents: node
+                .children_vec()
+                .into_iter()
+                .map(|n| StorageVariant::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -4331,7 +4335,11 @@ impl<'a> DocBuild<'a> for FromClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("FROM"));
-            result.push(self.content.build(b));
+
+            let docs = b.to_docs(&self.contents);
+            let sep = Insertable::new(None, Some(" "), None);
+            let doc = b.intersperse(&docs, sep);
+            result.push(doc);
         });
     }
 }
-- 
2.43.0


From 25239295cf5080c9324651d2319ad7a6cc7322e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 06/51] fix: keep every type of a SOQL FOR clause

---
 src/data_model.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 58b25d9..bd35c7c 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -6011,7 +6011,7 @@ impl<'a> DocBuild<'a> for SoqlWithType {
 
 #[derive(Debug)]
 pub struct ForClause {
-    pub for_type: ValueNode,
+    pub for_types: Vec<ValueNode>,
     pub node_context: NodeContext,
 }
 
@@ -6020,7 +6020,11 @@ impl ForClause {
         assert_check(node, "for_clause");
 
         Self {
-            for_type: ValueNode::new(node.c_by_k("for_type")),
+            for_types: node
+                .cs_by_k("for_type")
+                .into_iter()
+                .map(|n| ValueNode::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -6029,7 +6033,10 @@ impl ForClause {
 impl<'a> DocBuild<'a> for ForClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.for_type.build(b));
+            let docs = b.to_docs(&self.for_types);
+            let sep = Insertable::new(None, Some(" "), None);
+            let doc = b.intersperse(&docs, sep);
+            result.push(doc);
         });
     }
 }
-- 
2.43.0


From 832cb9d8b6b7b63c4b6b0fc2a9c44a83a5f9f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 07/51] fix: print the USING clause of a SOQL query

---
 src/data_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index bd35c7c..91e92ff 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4209,7 +4209,7 @@ impl<'a> DocBuild<'a> for SObjectReturnQuery {
 pub struct SoqlQueryBody {
     pub select_clause: SelectClause,
     pub from_clause: FromClause,
-    //using_clause;
+    pub using_clause: Option<UsingClause>,
     pub where_clause: Option<WhereClause>,
     pub with_clause: Option<SoqlWithClause>,
     pub group_by_clause: Option<GroupByClause>,
@@ -4226,6 +4226,7 @@ impl SoqlQueryBody {
     pub fn new(node: Node) -> Self {
         assert_check(node, "soql_query_body");
 
+        let using_clause = node.try_c_by_n("using_clause").map(|n| UsingClause::new(n));
         let where_clause = node.try_c_by_n("where_clause").map(|n| WhereClause::new(n));
         let with_clause = node
             .try_c_by_n("with_clause")
@@ -4252,6 +4253,7 @@ impl SoqlQueryBody {
         Self {
             select_clause: SelectClause::new(node.c_by_n("select_clause")),
             from_clause: FromClause::new(node.c_by_n("from_clause")),
+            using_clause,
             where_clause,
             with_clause,
             group_by_clause,
@@ -4272,6 +4274,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             docs.push(self.select_clause.build(b));
             docs.push(self.from_clause.build(b));
 
+            if let Some(ref n) = self.using_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.where_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From 94d7d1b12a4cb71c7b4f0520f9e5c5c94a3b1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 08/51] fix: read the fields of a USING LOOKUP clause by their
 names

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 91e92ff..29f2594 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4616,7 +4616,7 @@ impl UsingLookupClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "using_lookup_clause");
 
-        let lookup_field = DottedIdentifier::new(node.c_by_n("using_lookup_clause"));
+        let lookup_field = DottedIdentifier::new(node.c_by_n("lookup_field"));
         let bind_clause = node
             .try_c_by_k("using_lookup_bind_clause")
             .map(|n| UsingLookupBindClause::new(n));
@@ -4634,8 +4634,8 @@ impl<'a> DocBuild<'a> for UsingLookupClause {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("LOOKUP"));
             result.push(self.lookup_field.build(b));
-            result.push(b.txt(" "));
             if let Some(ref n) = self.bind_clause {
+                result.push(b.txt(" "));
                 result.push(n.build(b));
             }
         });
@@ -4717,7 +4717,7 @@ impl UsingLookupBindExpression {
         assert_check(node, "using_lookup_bind_expression");
 
         Self {
-            field: ValueNode::new(node.c_by_k("field")),
+            field: ValueNode::new(node.c_by_n("field")),
             bound_value: SoqlLiteral::new(node.c_by_n("bound_value")),
             node_context: NodeContext::with_punctuation(&node),
         }
-- 
2.43.0


From 37cfa936101edd4899160e7d4ac3d5f2428254d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 09/51] fix: print the UPDATE clause of a SOQL query

---
 src/data_model.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 29f2594..911b4d2 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4217,7 +4217,7 @@ pub struct SoqlQueryBody {
     pub limit_clause: Option<LimitClause>,
     pub offset_clause: Option<OffsetClause>,
     pub for_clause: Vec<ForClause>,
-    //update_c;
+    pub update_clause: Option<UpdateClause>,
     pub all_rows_clause: Option<AllRowsClause>,
     pub node_context: NodeContext,
 }
@@ -4244,6 +4244,9 @@ impl SoqlQueryBody {
         let all_rows_clause = node
             .try_c_by_n("all_rows_clause")
             .map(|n| AllRowsClause::new(n));
+        let update_clause = node
+            .try_c_by_n("update_clause")
+            .map(|n| UpdateClause::new(n));
         let for_clause = node
             .try_cs_by_k("for_clause")
             .into_iter()
@@ -4261,6 +4264,7 @@ impl SoqlQueryBody {
             limit_clause,
             offset_clause,
             for_clause,
+            update_clause,
             all_rows_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4307,6 +4311,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
                 let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
                 docs.push(for_clause_doc);
             }
+            if let Some(ref n) = self.update_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
-- 
2.43.0


From 3a78eafc1b5993cb682b76468fbd53056accecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 10/51] fix: print ALL ROWS after the FOR and UPDATE clauses as
 the grammar requires

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 911b4d2..9e40f1d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4299,9 +4299,6 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.offset_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.all_rows_clause {
-                docs.push(n.build(b));
-            }
             if !self.for_clause.is_empty() {
                 let for_types: Vec<DocRef<'_>> =
                     self.for_clause.iter().map(|n| n.build(b)).collect();
@@ -4314,6 +4311,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.all_rows_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
-- 
2.43.0


From 69b8cd7cf0b66e57dfb9c2ee1ff2e10342dcffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 11/51] fix: print the OFFSET clause of a SOSL query

---
 src/data_model.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 9e40f1d..6eb0236 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3937,7 +3937,7 @@ pub struct SoslQueryBody {
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
-    //pub offset_clause: Option<OffsetClause>,
+    pub offset_clause: Option<OffsetClause>,
     pub update_clause: Option<UpdateClause>,
     pub node_context: NodeContext,
 }
@@ -3960,6 +3960,9 @@ impl SoslQueryBody {
             .try_c_by_k("sosl_using_clause")
             .map(|n| SoslUsingClause::new(n));
         let limit_clause = node.try_c_by_k("limit_clause").map(|n| LimitClause::new(n));
+        let offset_clause = node
+            .try_c_by_k("offset_clause")
+            .map(|n| OffsetClause::new(n));
         let update_clause = node
             .try_c_by_k("update_clause")
             .map(|n| UpdateClause::new(n));
@@ -3971,6 +3974,7 @@ impl SoslQueryBody {
             with_clauses,
             using_clause,
             limit_clause,
+            offset_clause,
             update_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4001,6 +4005,9 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.limit_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.offset_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From 2fbc7e406a695f466ef6e1f2dfcf367dccdfae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 12/51] fix: keep every RETURNING clause of a SOSL query

---
 src/data_model.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 6eb0236..8ecf6fc 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3933,7 +3933,7 @@ impl<'a> DocBuild<'a> for QueryBody {
 pub struct SoslQueryBody {
     pub find_clause: FindClause,
     pub in_clause: Option<InClause>,
-    pub returning_clause: Option<ReturningClause>,
+    pub returning_clauses: Vec<ReturningClause>,
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
@@ -3948,9 +3948,11 @@ impl SoslQueryBody {
 
         let find_clause = FindClause::new(node.c_by_k("find_clause"));
         let in_clause = node.try_c_by_k("in_clause").map(|n| InClause::new(n));
-        let returning_clause = node
-            .try_c_by_k("returning_clause")
-            .map(|n| ReturningClause::new(n));
+        let returning_clauses = node
+            .try_cs_by_k("returning_clause")
+            .into_iter()
+            .map(|n| ReturningClause::new(n))
+            .collect();
         let with_clauses = node
             .try_cs_by_k("with_clause")
             .into_iter()
@@ -3970,7 +3972,7 @@ impl SoslQueryBody {
         Self {
             find_clause,
             in_clause,
-            returning_clause,
+            returning_clauses,
             with_clauses,
             using_clause,
             limit_clause,
@@ -3990,9 +3992,7 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.in_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.returning_clause {
-                docs.push(n.build(b));
-            }
+            docs.extend(b.to_docs(&self.returning_clauses));
             if !self.with_clauses.is_empty() {
                 let with_clauses_docs = b.to_docs(&self.with_clauses);
                 let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-- 
2.43.0


From 9fffd9bfac8a26a5f1e247a7e09f773147f3e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 13/51] fix: keep every update expression of a for statement

---
 src/data_model.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8ecf6fc..46acfed 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1470,7 +1470,7 @@ impl<'a> DocBuild<'a> for ForInitOption {
 pub struct ForStatement {
     pub init: Option<ForInitOption>,
     pub condition: Option<Expression>,
-    pub update: Option<Expression>,
+    pub updates: Vec<Expression>,
     pub body: Statement,
     pub semicolons: Vec<Punctuation>,
     pub node_context: NodeContext,
@@ -1486,7 +1486,12 @@ impl ForStatement {
 
         let init = node.try_c_by_n("init").map(|n| ForInitOption::new(n));
         let condition = node.try_c_by_n("condition").map(|n| Expression::new(n));
-        let update = node.try_c_by_n("update").map(|n| Expression::new(n));
+        let mut cursor = node.walk();
+        let updates: Vec<Expression> = node
+            .children_by_field_name("update", &mut cursor)
+            .filter(|n| n.is_named())
+            .map(|n| Expression::new(n))
+            .collect();
 
         let semicolons = Self::build_semi_colons(&node);
 
@@ -1504,7 +1509,7 @@ impl ForStatement {
         Self {
             init,
             condition,
-            update,
+            updates,
             body: Statement::new(node.c_by_n("body")),
             semicolons,
             node_context: NodeContext::with_punctuation(&node),
@@ -1537,9 +1542,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = match &self.update {
-                Some(u) => b.concat(vec![b.txt(" "), u.build(b)]),
-                None => b.nil(),
+            let update = if self.updates.is_empty() {
+                b.nil()
+            } else {
+                let docs = b.to_docs(&self.updates);
+                let sep = Insertable::new(None, Some(" "), None);
+                b.concat(vec![b.txt(" "), b.intersperse(&docs, sep)])
             };
 
             let docs = vec![init, condition, update];
-- 
2.43.0


From a6e0a1c433c566c68b00f4eaac837e1f23652d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 14/51] fix: do not underflow when a one-line file has several
 members

---
 src/enum_def.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 97e1106..873aeb6 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -819,7 +819,7 @@ impl<M> BodyMember<M> {
         }
 
         node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row < n.start_position().row - 1)
+            .is_some_and(|n| node.end_position().row < n.start_position().row.saturating_sub(1))
     }
 }
 
-- 
2.43.0


From 318d3df78669b9cc2d00bff454b05af4a82c6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 15/51] fix: print the comments of a file that has no code

---
 src/data_model.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 46acfed..1e2a1d5 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -49,12 +49,9 @@ impl<'a> DocBuild<'a> for Root {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         let bucket = get_comment_bucket(&self.node_context.id);
         if !bucket.dangling_comments.is_empty() {
-            let docs: Vec<_> = bucket
-                .dangling_comments
-                .iter()
-                .map(|n| n.build(b))
-                .collect();
-            return result.push(b.concat(docs));
+            result.push(b.concat(handle_dangling_comments(b, bucket)));
+            result.push(b.nl());
+            return;
         }
 
         let doc = b.intersperse_body_members(&self.members);
-- 
2.43.0


From b095eb8a139a005b44462457146a943be735a20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 16/51] fix: keep the delimiters of an empty list that holds
 comments

---
 src/data_model.rs | 10 +++++-----
 src/utility.rs    | 27 +++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 1e2a1d5..a57b658 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -204,7 +204,7 @@ impl FormalParameters {
 
 impl<'a> DocBuild<'a> for FormalParameters {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, "(", ")", result, |b, result| {
             let parameters_doc = b.to_docs(&self.formal_parameters);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -546,7 +546,7 @@ impl ArrayInitializer {
 
 impl<'a> DocBuild<'a> for ArrayInitializer {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, "{", "}", result, |b, result| {
             let docs = b.to_docs(&self.initializers);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -958,7 +958,7 @@ impl TypeArguments {
 
 impl<'a> DocBuild<'a> for TypeArguments {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, "<", ">", result, |b, result| {
             let docs = b.to_docs(&self.types);
             let sep = Insertable::new(None, Some(" "), None);
             let open = Insertable::new(None, Some("<"), None);
@@ -992,7 +992,7 @@ impl ArgumentList {
 
 impl<'a> DocBuild<'a> for ArgumentList {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, "(", ")", result, |b, result| {
             let docs = b.to_docs(&self.expressions);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -5036,7 +5036,7 @@ impl MapInitializer {
 
 impl<'a> DocBuild<'a> for MapInitializer {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, "{", "}", result, |b, result| {
             let docs = b.to_docs(&self.initializers);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
diff --git a/src/utility.rs b/src/utility.rs
index 8ce88c1..24b6be9 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -358,6 +358,33 @@ pub fn build_with_comments_and_punc_attached<'a, F>(
     }
 }
 
+// an empty list keeps its delimiters around the comments in it, e.g. "(/* none */)"
+pub fn build_list_with_comments_and_punc<'a, F>(
+    b: &'a DocBuilder<'a>,
+    node_context: &NodeContext,
+    open: &str,
+    close: &str,
+    result: &mut Vec<DocRef<'a>>,
+    handle_members: F,
+) where
+    F: FnOnce(&'a DocBuilder<'a>, &mut Vec<DocRef<'a>>),
+{
+    let bucket = get_comment_bucket(&node_context.id);
+    if bucket.dangling_comments.is_empty() {
+        return build_with_comments_and_punc(b, node_context, result, handle_members);
+    }
+
+    handle_pre_comments(b, bucket, result);
+    result.push(b.txt(open));
+    result.push(b.concat(handle_dangling_comments(b, bucket)));
+    result.push(b.txt(close));
+    handle_post_comments(b, bucket, result);
+
+    if let Some(ref n) = node_context.punc {
+        result.push(n.build(b));
+    }
+}
+
 pub fn handle_dangling_comments_in_bracket_surround<'a>(
     b: &'a DocBuilder<'a>,
     bucket: &CommentBucket,
-- 
2.43.0


From bc81376d139047b0217ad29c0b354f5a371c831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 17/51] fix: indent the statement after a blank line below a
 constructor invocation

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index a57b658..3082ed0 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1837,7 +1837,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
                 if !self.statements.is_empty() {
                     if c.has_trailing_newline {
-                        result.push(b.empty_new_line());
+                        result.push(b.indent(b.empty_new_line()));
                     } else {
                         result.push(b.indent(b.nl()));
                     }
-- 
2.43.0


From 95f38a059af24a13805bd200a62d595e1f111226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 18/51] fix: print the semicolon of an empty if or else branch
 once

---
 src/data_model.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3082ed0..a6e9c43 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1365,13 +1365,25 @@ impl<'a> DocBuild<'a> for IfStatement {
             if self.consequence.is_block() {
                 result.push(b.txt(" "));
                 result.push(self.consequence.build(b));
-            } else {
+            } else if !matches!(self.consequence, Statement::SemiColumn) {
+                // an empty statement's ";" is printed as the punctuation of the condition
                 result.push(b.indent(b.nl()));
                 result.push(b.indent(self.consequence.build(b)));
             }
 
             // Handle the 'else' part
             if let Some(ref alt) = self.alternative {
+                if matches!(alt.statement, Statement::SemiColumn) {
+                    // an empty statement's ";" is printed as the punctuation of `else`
+                    result.push(if self.consequence.is_block() {
+                        b.txt(" ")
+                    } else {
+                        b.nl()
+                    });
+                    result.push(alt.else_node.build(b));
+                    return;
+                }
+
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
 
-- 
2.43.0


From f2844cf26761946acc60febff2160f3de94d6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 19/51] fix: return the results of a batch in the order of its
 files

---
 src/formatter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2392f1..9bc373b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -103,7 +103,7 @@ impl Formatter {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
-        for file in &self.source_files {
+        for (index, file) in self.source_files.iter().enumerate() {
             let tx = tx.clone();
             let config = config.clone();
             let file = file.clone();
@@ -124,10 +124,11 @@ impl Formatter {
                 });
                 match result {
                     Ok(result) => {
-                        tx.send(Ok(result)).expect("failed to send result in tx");
+                        tx.send((index, Ok(result)))
+                            .expect("failed to send result in tx");
                     }
                     Err(_) => tx
-                        .send(Err("Thread panicked".to_string()))
+                        .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
             });
@@ -135,7 +136,10 @@ impl Formatter {
 
         drop(tx);
 
-        rx.into_iter().collect()
+        // results arrive in the order of completion, return them in the order of source_files
+        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();
+        results.sort_by_key(|(index, _)| *index);
+        results.into_iter().map(|(_, result)| result).collect()
     }
 
     pub fn format_one(source_code: &str, config: Config) -> String {
-- 
2.43.0


From 125642624325cff69c7d18341beee2a28605e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 20/51] fix: measure the width of a text in characters, not
 bytes

---
 src/doc_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_builder.rs b/src/doc_builder.rs
index 78f1f5e..f19b594 100644
--- a/src/doc_builder.rs
+++ b/src/doc_builder.rs
@@ -191,7 +191,7 @@ impl<'a> DocBuilder<'a> {
 
     pub fn txt(&'a self, text: impl ToString) -> DocRef<'a> {
         let s = text.to_string();
-        let width = s.len() as u32;
+        let width = s.chars().count() as u32;
         self.arena.alloc(Doc::Text(s, width))
     }
 
-- 
2.43.0


From 12566619cfc7ccd94a5137ff7ca7454adf41870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 21/51] fix: keep the parentheses of a SOQL NOT inside another
 NOT

---
 src/enum_def.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 873aeb6..3906e0e 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1235,9 +1235,10 @@ impl ConditionExpression {
     }
 
     fn should_parenthesize(parent_op: Option<&str>, child_op: Option<&str>) -> bool {
-        // Parentheses are NOT needed if both parent and child operators are the same.
+        // Parentheses are NOT needed if both parent and child operators are the same,
+        // except for NOT, which can't be repeated without them.
         // Otherwise, parentheses are needed to maintain correct logical grouping.
-        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child)
+        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child && parent != "NOT")
     }
 }
 
-- 
2.43.0


From 2ce62a705beb02697ca7a1207262d872396d7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 22/51] fix: keep the brackets around comments in array
 dimensions

---
 src/data_model.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index a6e9c43..671ad5c 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2749,9 +2749,17 @@ impl Dimensions {
 
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]".repeat(self.count)));
-        });
+        let close = format!("]{}", "[]".repeat(self.count - 1));
+        build_list_with_comments_and_punc(
+            b,
+            &self.node_context,
+            "[",
+            &close,
+            result,
+            |b, result| {
+                result.push(b.txt("[]".repeat(self.count)));
+            },
+        );
     }
 }
 
-- 
2.43.0


From 9944d6ca3780fff787bfe9725ee0fe639d24ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 23/51] fix: keep the package version expression around
 comments in it

---
 src/data_model.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 671ad5c..90e60b7 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3689,14 +3689,21 @@ impl VersionExpression {
 
 impl<'a> DocBuild<'a> for VersionExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("Package.Version."));
-            if let Some(ref n) = self.version_number {
-                result.push(n.build(b));
-            } else {
-                result.push(b.txt("Request"));
-            }
-        });
+        build_list_with_comments_and_punc(
+            b,
+            &self.node_context,
+            "Package.Version.",
+            "Request",
+            result,
+            |b, result| {
+                result.push(b.txt("Package.Version."));
+                if let Some(ref n) = self.version_number {
+                    result.push(n.build(b));
+                } else {
+                    result.push(b.txt("Request"));
+                }
+            },
+        );
     }
 }
 
-- 
2.43.0


From 353c556c3ffef62494e02543d0a2c1f7b242d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 24/51] fix: print the comments before a simple WITH type once

---
 src/data_model.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 90e60b7..1002a96 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5268,7 +5268,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 
 #[derive(Debug)]
 pub enum SoqlWithTypeVariant {
-    SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
+    SimpleType(String), // Security_Enforced, User_Mode, and System_Mode
     //RecordVisibility(WithRecordVisibilityExpression),
     //DataCategory(WithDataCatExpression),
     UserId(ValueNode),
@@ -5277,7 +5277,7 @@ pub enum SoqlWithTypeVariant {
 impl SoqlWithTypeVariant {
     pub fn new(node: Node) -> Self {
         let with_type = if node.named_child_count() == 0 {
-            return Self::SimpleType(ValueNode::new(node));
+            return Self::SimpleType(node.value());
         } else {
             let child = node.first_c();
             match child.kind() {
@@ -5293,7 +5293,8 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         match self {
             Self::SimpleType(n) => {
-                result.push(n.build(b));
+                // the comments are handled in SoqlWithType, which is the same node
+                result.push(b.txt(n));
             }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
-- 
2.43.0


From c758a30307b10688a08a962b57387150e883c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 25/51] fix: no trailing space after a line comment in a list

---
 src/doc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/doc.rs b/src/doc.rs
index 3474cae..b9014f6 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -115,8 +115,11 @@ impl<'a> PrettyPrinter<'a> {
                 }
                 Doc::Softline => {
                     if chunk.flat {
-                        result.push(' ');
-                        self.col += 1;
+                        // a pending newline, e.g. after a line comment, separates already
+                        if !newline_buffer.is_pending() {
+                            result.push(' ');
+                            self.col += 1;
+                        }
                     } else {
                         newline_buffer.set_pending(chunk.indent);
                     }
-- 
2.43.0


From b61db96fa8985b5fc26a6f07b596346d875bf9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 26/51] fix: no spaces before a line break

---
 src/doc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/doc.rs b/src/doc.rs
index b9014f6..c49ed11 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -110,6 +110,7 @@ impl<'a> PrettyPrinter<'a> {
                     // Clear any pending newline and insert a newline without indent
                     newline_buffer.clear();
 
+                    Self::trim_trailing_spaces(&mut result);
                     result.push('\n');
                     self.col = 0;
                 }
@@ -187,7 +188,13 @@ impl<'a> PrettyPrinter<'a> {
         result
     }
 
+    // e.g. the space after a block comment whose next node starts a new line
+    fn trim_trailing_spaces(result: &mut String) {
+        result.truncate(result.trim_end_matches(' ').len());
+    }
+
     fn insert_newline_with_indent(&mut self, result: &mut String, indent: u32) {
+        Self::trim_trailing_spaces(result);
         result.push('\n');
         for _ in 0..indent {
             result.push(' ');
-- 
2.43.0


From 4be66fc4d770a41b6be8afa822d0e897eaa80b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 27/51] fix: keep the comments of SOSL fields inside of their
 parentheses

---
 src/data_model.rs | 52 ++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 1002a96..8461055 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4211,36 +4211,38 @@ pub struct SObjectReturnQuery {
 
 impl<'a> DocBuild<'a> for SObjectReturnQuery {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            let mut docs = vec![];
+        let mut docs = vec![];
 
+        // the comments belong to the fields, inside of the parentheses
+        let mut fields_docs = vec![];
+        build_with_comments_and_punc(b, &self.node_context, &mut fields_docs, |b, result| {
             let selected_fields_docs = b.to_docs(&self.selected_fields);
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-            let doc = b.intersperse(&selected_fields_docs, sep);
-            docs.push(doc);
+            result.push(b.intersperse(&selected_fields_docs, sep));
+        });
+        docs.push(b.concat(fields_docs));
 
-            if let Some(ref n) = self.using_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.where_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.order_by_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.limit_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.offset_clause {
-                docs.push(n.build(b));
-            }
+        if let Some(ref n) = self.using_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.where_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.order_by_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.limit_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.offset_clause {
+            docs.push(n.build(b));
+        }
 
-            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
-            let close = Insertable::new(None, Some(")"), None);
-            let doc = b.group_surround(&docs, sep, open, close);
-            result.push(doc);
-        });
+        let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+        let open = Insertable::new(None, Some("("), Some(b.maybeline()));
+        let close = Insertable::new(None, Some(")"), None);
+        let doc = b.group_surround(&docs, sep, open, close);
+        result.push(doc);
     }
 }
 
-- 
2.43.0


From 3f91360c1a96f726838003b5f1a369adc79232ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 28/51] fix: one space between a block comment and the next
 part of a list

---
 src/doc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/doc.rs b/src/doc.rs
index c49ed11..1a37aad 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -117,7 +117,8 @@ impl<'a> PrettyPrinter<'a> {
                 Doc::Softline => {
                     if chunk.flat {
                         // a pending newline, e.g. after a line comment, separates already
-                        if !newline_buffer.is_pending() {
+                        // and so does the space after a block comment
+                        if !newline_buffer.is_pending() && !result.ends_with(' ') {
                             result.push(' ');
                             self.col += 1;
                         }
-- 
2.43.0


From 58f6a42ac38305f472e3f16b540c6b861063fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 29/51] fix: a star before the last line of a doc comment is
 not content

---
 src/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 4737a6c..14af223 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -171,7 +171,10 @@ impl<'a> DocBuild<'a> for Comment {
                             result.push(b.txt(trimmed));
                         } else if i == lines.len() - 1 {
                             if let Some(before_end) = trimmed.strip_suffix("*/") {
-                                let content = before_end.trim();
+                                // As in the lines above: a leading star is not content
+                                let before_end = before_end.trim_start();
+                                let content =
+                                    before_end.strip_prefix('*').unwrap_or(before_end).trim();
                                 if content.is_empty() {
                                     result.push(b.txt(" */"));
                                 } else {
-- 
2.43.0


From c96eff96badb294fde136af0eb09415f4d7e95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 30/51] fix: no blank line after a comment behind a lone
 constructor invocation

---
 src/data_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8461055..da9328d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1858,7 +1858,9 @@ impl<'a> DocBuild<'a> for ConstructorBody {
                 result.push(b.indent(b.nl()));
             }
 
-            result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            if !self.statements.is_empty() {
+                result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            }
             result.push(b.nl());
             result.push(b.txt("}"));
         } else {
-- 
2.43.0


From 1bc1e2f3413cd1cc5d6df94eb47006b1f402af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 31/51] fix: no blank line after a comment between the rules of
 a switch

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index da9328d..1f3b1b0 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3516,7 +3516,7 @@ impl<'a> DocBuild<'a> for SwitchBlock {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let docs = b.to_docs(&self.rules);
 
-            let sep = Insertable::new(None, Some(""), Some(b.nl()));
+            let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
             let open = Insertable::new(None, Some("{"), Some(b.nl()));
             let close = Insertable::new(Some(b.nl()), Some("}"), None);
             let doc = b.surround(&docs, sep, open, close);
-- 
2.43.0


From 6efceb23a2824db66354625b646e685ea0c399ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 32/51] fix: no blank line in a broken for header without
 updates

---
 src/data_model.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 1f3b1b0..c66f153 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1551,15 +1551,13 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = if self.updates.is_empty() {
-                b.nil()
-            } else {
-                let docs = b.to_docs(&self.updates);
-                let sep = Insertable::new(None, Some(" "), None);
-                b.concat(vec![b.txt(" "), b.intersperse(&docs, sep)])
-            };
+            let mut docs = vec![init, condition];
 
-            let docs = vec![init, condition, update];
+            if !self.updates.is_empty() {
+                let update_docs = b.to_docs(&self.updates);
+                let sep = Insertable::new(None, Some(" "), None);
+                docs.push(b.concat(vec![b.txt(" "), b.intersperse(&update_docs, sep)]));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.maybeline()));
             let open = Insertable::new(None, Some("("), Some(b.maybeline()));
-- 
2.43.0


From 0703882f7ed11b10ae1273daf1acf4323220a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 33/51] fix: keep the order of the comments behind the last
 node of a list

---
 src/utility.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 24b6be9..3216c72 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -186,13 +186,10 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
 
                 // Continue until we either assign the comment or run out of siblings
                 while let Some(c) = comment_opt.take() {
-                    // If no next sibling, assign this comment to the last node's post_comments and stop
+                    // If no next sibling, keep it behind the pending ones: they all end up as
+                    // the last node's post_comments
                     if !peek_cursor.goto_next_sibling() {
-                        comment_map
-                            .entry(last_id)
-                            .or_insert_with(CommentBucket::new)
-                            .post_comments
-                            .push(c);
+                        pending_pre_comments.push(c);
                         break;
                     }
 
-- 
2.43.0


From 43261288abcf58e9f4cc2e975555805117e51705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 34/51] fix: keep the comments behind an accessor behind its
 semicolon

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index c66f153..762f3f3 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3303,7 +3303,7 @@ impl AccessorDeclaration {
 
 impl<'a> DocBuild<'a> for AccessorDeclaration {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_with_comments_and_punc_attached(b, &self.node_context, result, |b, result| {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
-- 
2.43.0


From 42da5e8d5084e2811b161e6fdb62c2662fc2c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 35/51] fix: print the comments behind a body that holds only
 comments

---
 src/data_model.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 762f3f3..c6b2422 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -450,10 +450,10 @@ impl<'a> DocBuild<'a> for ClassBody {
 
         if bucket.dangling_comments.is_empty() {
             result.push(b.surround_body_members(&self.class_members, "{", "}"));
-            handle_post_comments(b, bucket, result);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
+        handle_post_comments(b, bucket, result);
     }
 }
 
@@ -691,7 +691,6 @@ impl<'a> DocBuild<'a> for Block {
             result.push(docs);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
-            return;
         }
         handle_post_comments(b, bucket, result);
     }
@@ -2373,10 +2372,10 @@ impl<'a> DocBuild<'a> for EnumBody {
             let close = Insertable::new(Some(b.nl()), Some("}"), None);
             let doc = b.group_surround(&docs, sep, open, close);
             result.push(doc);
-            handle_post_comments(b, bucket, result);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
+        handle_post_comments(b, bucket, result);
     }
 }
 
@@ -3142,10 +3141,10 @@ impl<'a> DocBuild<'a> for InterfaceBody {
 
         if bucket.dangling_comments.is_empty() {
             result.push(b.surround_body_members(&self.members, "{", "}"));
-            handle_post_comments(b, bucket, result);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
+        handle_post_comments(b, bucket, result);
     }
 }
 
-- 
2.43.0


From 02660824a5b0b80ea2808da7cdacc0d23b27affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 36/51] fix: indent a query that is only indexed

---
 src/data_model.rs | 2 +-
 src/utility.rs    | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index c6b2422..b4bd8a0 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3906,7 +3906,7 @@ impl QueryExpression {
 
         Self {
             query_body,
-            context: build_chaining_context(&node),
+            context: build_chaining_context(&node).filter(|_| !is_only_indexed(&node)),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
diff --git a/src/utility.rs b/src/utility.rs
index 3216c72..72050ec 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -594,6 +594,15 @@ pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
     })
 }
 
+// array accesses alone do not indent the node like the other chaining nodes do, e.g. "[SELECT Id FROM A][0]"
+pub fn is_only_indexed(node: &Node) -> bool {
+    let mut parent = node.parent();
+    while let Some(n) = parent.filter(|n| n.kind() == "array_access") {
+        parent = n.parent();
+    }
+    !parent.is_some_and(|n| is_a_chaining_node(&n))
+}
+
 fn is_a_chaining_node(node: &Node) -> bool {
     [
         "method_invocation",
-- 
2.43.0


From 788d522d2d0f936045053f1da555fffcba78e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 37/51] fix: do not take the index of an array access for a
 part of the chain

---
 src/utility.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 72050ec..19432e6 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -571,11 +571,7 @@ pub fn get_comparsion(node: &Node) -> Comparison {
 }
 
 pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
-    let parent_node = node
-        .parent()
-        .expect("node must have parent node in build_chaining_context()");
-
-    let is_parent_a_chaining_node = is_a_chaining_node(&parent_node);
+    let is_parent_a_chaining_node = chaining_parent(node).is_some();
 
     let has_a_chaining_child = node
         .try_c_by_n("object")
@@ -596,11 +592,17 @@ pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
 
 // array accesses alone do not indent the node like the other chaining nodes do, e.g. "[SELECT Id FROM A][0]"
 pub fn is_only_indexed(node: &Node) -> bool {
-    let mut parent = node.parent();
+    let mut parent = chaining_parent(node);
     while let Some(n) = parent.filter(|n| n.kind() == "array_access") {
-        parent = n.parent();
+        parent = chaining_parent(&n);
     }
-    !parent.is_some_and(|n| is_a_chaining_node(&n))
+    parent.is_none()
+}
+
+// the index of an array access is not a part of the chain
+fn chaining_parent<'t>(node: &Node<'t>) -> Option<Node<'t>> {
+    node.parent()
+        .filter(|n| is_a_chaining_node(n) && n.try_c_by_n("index") != Some(*node))
 }
 
 fn is_a_chaining_node(node: &Node) -> bool {
-- 
2.43.0


From a054b6dd08c4792d38ae2f54c63e531eabb3ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 38/51] fix: no space before a comment that starts a line
 without indentation

---
 src/doc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc.rs b/src/doc.rs
index 1a37aad..716b5f9 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -142,7 +142,7 @@ impl<'a> PrettyPrinter<'a> {
                         newline_buffer.clear();
                     }
 
-                    if text == " " && result.ends_with(' ') {
+                    if text == " " && (result.is_empty() || result.ends_with([' ', '\n'])) {
                         // TODO: better way to handle this challenge?
                         // do nothing to avoid "double spacing" in comment node handling
                     } else {
-- 
2.43.0


From d7518285bb67131bf6105f2a4f4b98b3eb915c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 39/51] fix: a thread can format one text after the other

---
 src/utility.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 19432e6..ac53455 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -29,9 +29,6 @@ pub fn set_thread_source_code(source_code: String) {
     // TODO: use OnceCell to not leak?
     let leaked_code: &'static str = Box::leak(source_code.into_boxed_str());
     THREAD_SOURCE_CODE.with(|sc| {
-        if sc.get().is_some() {
-            panic!("Source code is already set for this thread");
-        }
         sc.set(Some(leaked_code));
     });
 }
@@ -49,9 +46,6 @@ pub fn set_thread_comment_map(comment_map: CommentMap) {
     let leaked_map: &'static CommentMap = Box::leak(Box::new(comment_map));
 
     THREAD_COMMENT_MAP.with(|cm| {
-        if cm.get().is_some() {
-            panic!("CommentMap is already set for this thread");
-        }
         cm.set(Some(leaked_map));
     });
 }
-- 
2.43.0


From 2e7ab0b26c7b8466d25b6dfdeb16275b53236aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 40/51] fix: indent all lines of an unbraced else statement

---
 src/data_model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index b4bd8a0..0de3aaa 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1395,6 +1395,8 @@ impl<'a> DocBuild<'a> for IfStatement {
 
                     if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                         result.push(b.indent(b.nl()));
+                        result.push(b.indent(alt.statement.build(b)));
+                        return;
                     } else {
                         result.push(b.txt(" "));
                     }
-- 
2.43.0


From bd903392a2d9d101c746dbc51748e1a46fb07ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 41/51] fix: spaces before a line break do not count for the
 width

---
 src/doc.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/doc.rs b/src/doc.rs
index 716b5f9..100dc81 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -217,6 +217,8 @@ impl<'a> PrettyPrinter<'a> {
         let mut stack = vec![chunk];
         let mut chunks = &self.chunks as &[Chunk];
         let mut within_group = true;
+        // Spaces count only when something follows them on the line
+        let mut pending_spaces: u32 = 0;
 
         loop {
             let chunk = if let Some(chunk) = stack.pop() {
@@ -239,11 +241,7 @@ impl<'a> PrettyPrinter<'a> {
                 }
                 Doc::Softline => {
                     if chunk.flat {
-                        if remaining_width >= 1 {
-                            remaining_width -= 1;
-                        } else {
-                            return false;
-                        }
+                        pending_spaces = pending_spaces.max(1);
                     } else {
                         return true;
                     }
@@ -253,11 +251,18 @@ impl<'a> PrettyPrinter<'a> {
                         return true;
                     }
                 }
-                Doc::Text(_, text_width) => {
-                    if *text_width <= remaining_width {
-                        remaining_width -= text_width;
+                Doc::Text(text, text_width) => {
+                    let trailing_spaces = (text.len() - text.trim_end_matches(' ').len()) as u32;
+
+                    if trailing_spaces < *text_width {
+                        let needed = pending_spaces + text_width - trailing_spaces;
+                        if needed > remaining_width {
+                            return false;
+                        }
+                        remaining_width -= needed;
+                        pending_spaces = trailing_spaces;
                     } else {
-                        return false;
+                        pending_spaces = pending_spaces.max(trailing_spaces);
                     }
                 }
                 Doc::Flat(x) => stack.push(chunk.flat(x)),
-- 
2.43.0


From 018cc688e0bd47d29155288cd3bbc08132045a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 42/51] fix: a block comment of several lines behind code stays
 behind it

---
 src/utility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index ac53455..e76bff0 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -206,7 +206,7 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                         break;
                     } else {
                         // Otherwise, the sibling is a named node, no special treatment needed
-                        if child.end_position().row == last_row {
+                        if child.start_position().row == last_row {
                             comment_map
                                 .entry(last_id)
                                 .or_insert_with(CommentBucket::new)
-- 
2.43.0


From 6390848f874b49f1bc80850e2a5497c532a1d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 43/51] fix: keep the type parameters of a method

---
 src/data_model.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 0de3aaa..4c5d674 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -131,6 +131,8 @@ impl<'a> DocBuild<'a> for ClassDeclaration {
 #[derive(Debug)]
 pub struct MethodDeclaration {
     pub modifiers: Option<Modifiers>,
+    pub type_parameters: Option<TypeParameters>,
+    pub annotations: Vec<Annotation>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
@@ -145,6 +147,14 @@ impl MethodDeclaration {
 
         Self {
             modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
+            type_parameters: node
+                .try_c_by_k("type_parameters")
+                .map(|n| TypeParameters::new(n)),
+            annotations: node
+                .try_cs_by_k("annotation")
+                .into_iter()
+                .map(|n| Annotation::new(n))
+                .collect(),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
@@ -161,6 +171,13 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
+            if let Some(ref n) = self.type_parameters {
+                result.push(n.build(b));
+                result.push(b.txt(" "));
+            }
+            for n in &self.annotations {
+                result.push(n.build(b));
+            }
 
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
-- 
2.43.0


From 8344b9cf281813d5c0c52c6edcfe53c68abd0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 44/51] fix: keep the bounds of a type parameter

---
 src/data_model.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 4c5d674..6d2d845 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1996,6 +1996,7 @@ impl<'a> DocBuild<'a> for TypeParameters {
 pub struct TypeParameter {
     annotations: Vec<Annotation>,
     pub type_identifier: String,
+    pub type_bound: Option<TypeBound>,
     pub node_context: NodeContext,
 }
 
@@ -2010,6 +2011,7 @@ impl TypeParameter {
         Self {
             annotations,
             type_identifier: node.cvalue_by_k("type_identifier"),
+            type_bound: node.try_c_by_k("type_bound").map(|n| TypeBound::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2025,6 +2027,38 @@ impl<'a> DocBuild<'a> for TypeParameter {
                 result.push(b.txt(" "));
             }
             result.push(b.txt(&self.type_identifier));
+            if let Some(ref n) = self.type_bound {
+                result.push(b.txt(" "));
+                result.push(n.build(b));
+            }
+        });
+    }
+}
+
+#[derive(Debug)]
+pub struct TypeBound {
+    pub types: Vec<Type>,
+    pub node_context: NodeContext,
+}
+
+impl TypeBound {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "type_bound");
+
+        Self {
+            types: node.children_vec().into_iter().map(Type::new).collect(),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for TypeBound {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            result.push(b.txt_("extends"));
+            let docs = b.to_docs(&self.types);
+            let sep = Insertable::new(None, Some(" & "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 88d7b30f3d4f5e3e487af5bf4f9bc7a96212dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 45/51] fix: keep the dot before super in a constructor call

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 6d2d845..d588cae 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1925,6 +1925,7 @@ impl<'a> DocBuild<'a> for ConstructInvocation {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             if let Some(ref o) = self.object {
                 result.push(o.build(b));
+                result.push(b.txt("."));
             }
 
             if let Some(ref t) = self.type_arguments {
-- 
2.43.0


From d238e9eef31160e28723836350120f4b2f1ccdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:51 +0000
Subject: [PATCH 46/51] fix: format the values of an annotation instead of
 copying them

---
 src/data_model.rs | 79 ++++++++++++++++++++++++++++++++++++++++++++---
 src/enum_def.rs   |  4 +--
 2 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d588cae..5aebc4b 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -393,8 +393,8 @@ impl Annotation {
     }
 }
 
-impl<'a> DocBuild<'a> for Annotation {
-    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+impl Annotation {
+    fn build_inline<'a>(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("@"));
             result.push(self.name.build(b));
@@ -403,14 +403,85 @@ impl<'a> DocBuild<'a> for Annotation {
                 result.push(a.build(b));
             }
         });
+    }
+}
+
+impl<'a> DocBuild<'a> for Annotation {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        self.build_inline(b, result);
         result.push(b.nl());
     }
 }
 
+#[derive(Debug)]
+pub enum AnnotationValue {
+    Literal(ValueNode),
+    Expression(Expression),
+    Array(AnnotationValueArray),
+    Annotation(Box<Annotation>),
+}
+
+impl AnnotationValue {
+    pub fn new(node: Node) -> Self {
+        match node.kind() {
+            "boolean" | "null_literal" => Self::Literal(ValueNode::new(node)),
+            "element_value_array_initializer" => Self::Array(AnnotationValueArray::new(node)),
+            "annotation" => Self::Annotation(Box::new(Annotation::new(node))),
+            _ => Self::Expression(Expression::new(node)),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for AnnotationValue {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        match self {
+            Self::Literal(n) => result.push(n.build(b)),
+            Self::Expression(n) => result.push(n.build(b)),
+            Self::Array(n) => result.push(n.build(b)),
+            Self::Annotation(n) => n.build_inline(b, result),
+        }
+    }
+}
+
+#[derive(Debug)]
+pub struct AnnotationValueArray {
+    values: Vec<AnnotationValue>,
+    pub node_context: NodeContext,
+}
+
+impl AnnotationValueArray {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "element_value_array_initializer");
+
+        Self {
+            values: node
+                .children_vec()
+                .into_iter()
+                .map(AnnotationValue::new)
+                .collect(),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for AnnotationValueArray {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_list_with_comments_and_punc(b, &self.node_context, "{", "}", result, |b, result| {
+            let docs = b.to_docs(&self.values);
+
+            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+            let open = Insertable::new(None, Some("{"), Some(b.softline()));
+            let close = Insertable::new(Some(b.softline()), Some("}"), None);
+            let doc = b.group_surround(&docs, sep, open, close);
+            result.push(doc);
+        });
+    }
+}
+
 #[derive(Debug)]
 pub struct AnnotationKeyValue {
     key: ValueNode,
-    value: ValueNode,
+    value: AnnotationValue,
     pub node_context: NodeContext,
 }
 
@@ -420,7 +491,7 @@ impl AnnotationKeyValue {
 
         Self {
             key: ValueNode::new(node.c_by_n("key")),
-            value: ValueNode::new(node.c_by_n("value")),
+            value: AnnotationValue::new(node.c_by_n("value")),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
diff --git a/src/enum_def.rs b/src/enum_def.rs
index 3906e0e..e38e46d 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -745,7 +745,7 @@ impl<'a> DocBuild<'a> for PropertyNavigation {
 #[derive(Debug)]
 pub enum AnnotationArgumentList {
     Nil,
-    Value(ValueNode),
+    Value(AnnotationValue),
     KeyValues(Vec<AnnotationKeyValue>),
 }
 
@@ -758,7 +758,7 @@ impl AnnotationArgumentList {
         let key_values = n.try_cs_by_k("annotation_key_value");
 
         if key_values.is_empty() {
-            Self::Value(ValueNode::new(n.c_by_n("value")))
+            Self::Value(AnnotationValue::new(n.c_by_n("value")))
         } else {
             let key_values = key_values
                 .into_iter()
-- 
2.43.0


From f01b2c8242bf51fd17f3508e3f8f8d4482cc997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 47/51] fix: an annotation inside a type does not end the line

---
 src/data_model.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 5aebc4b..52652c2 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1811,10 +1811,8 @@ impl<'a> DocBuild<'a> for ScopedTypeIdentifier {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(self.scoped_choice.build(b));
             result.push(b.txt("."));
-            if !self.annotations.is_empty() {
-                let docs = b.to_docs(&self.annotations);
-                let sep = Insertable::new(None, Some(" "), None);
-                result.push(b.intersperse(&docs, sep));
+            for n in &self.annotations {
+                n.build_inline(b, result);
                 result.push(b.txt(" "));
             }
             result.push(b.txt(&self.type_identifier));
@@ -2092,10 +2090,8 @@ impl TypeParameter {
 impl<'a> DocBuild<'a> for TypeParameter {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            if !self.annotations.is_empty() {
-                let docs = b.to_docs(&self.annotations);
-                let sep = Insertable::new(None, Some(" "), None);
-                result.push(b.intersperse(&docs, sep));
+            for n in &self.annotations {
+                n.build_inline(b, result);
                 result.push(b.txt(" "));
             }
             result.push(b.txt(&self.type_identifier));
-- 
2.43.0


From 9c565949fe97bed56cf8510b681a6ea5d461d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 48/51] fix: a comment behind a comma or semicolon stays behind
 it

---
 src/context.rs | 10 +++++-----
 src/utility.rs |  4 ++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 14af223..2d1d965 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -240,11 +240,11 @@ impl CommentMetadata {
         let prev = node.prev_named_sibling();
         let has_prev_node = prev.is_some();
 
-        let has_leading_content = if let Some(prev_node) = prev {
-            node.start_position().row == prev_node.end_position().row
-        } else {
-            false
-        };
+        let is_behind_on_line = |n: Node| n.end_position().row == node.start_position().row;
+        let has_leading_content = prev.is_some_and(is_behind_on_line)
+            || node
+                .prev_sibling()
+                .is_some_and(|n| is_punctuation_node(&n) && is_behind_on_line(n));
 
         let next = node.next_named_sibling();
         let has_trailing_content = match comment_type {
diff --git a/src/utility.rs b/src/utility.rs
index e76bff0..bae6121 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -240,6 +240,10 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
 
             // After returning, we know child is fully processed
             last_associable_node_info = Some((child_id, child.end_position().row));
+        } else if is_punctuation_node(&child) {
+            // What stands behind the mark on its line stands behind the node too
+            last_associable_node_info =
+                last_associable_node_info.map(|(id, _)| (id, child.end_position().row));
         }
 
         if !cursor.goto_next_sibling() {
-- 
2.43.0


From 17476e61b39cd8128cf04a31ddd5d4b617493108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:40 +0000
Subject: [PATCH 49/51] fix: a space before the body of an enum with interfaces

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 52652c2..f0e0da6 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2447,6 +2447,7 @@ impl<'a> DocBuild<'a> for EnumDeclaration {
 
             if let Some(ref n) = self.interface {
                 result.push(n.build(b));
+                result.push(b.txt(" "));
             }
             result.push(self.body.build(b));
         });
-- 
2.43.0


From c7a67f75713957ee9a036e52a6789a44c6e88efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:40 +0000
Subject: [PATCH 50/51] fix: a space behind the type parameters of a
 constructor

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index f0e0da6..30f2209 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1879,6 +1879,7 @@ impl<'a> DocBuild<'a> for ConstructorDeclaration {
             }
             if let Some(ref n) = self.type_parameters {
                 result.push(n.build(b));
+                result.push(b.txt(" "));
             }
 
             result.push(self.name.build(b));
-- 
2.43.0


From 37a77b3c90a4ed554e9485184e5e5209a28cc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:40 +0000
Subject: [PATCH 51/51] fix: break an annotation of an enum constant that is
 too long

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 30f2209..50beb6b 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2493,7 +2493,7 @@ impl<'a> DocBuild<'a> for EnumBody {
             let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
             let open = Insertable::new(None, Some("{"), Some(b.nl()));
             let close = Insertable::new(Some(b.nl()), Some("}"), None);
-            let doc = b.group_surround(&docs, sep, open, close);
+            let doc = b.surround(&docs, sep, open, close);
             result.push(doc);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
-- 
2.43.0

