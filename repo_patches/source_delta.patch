From 093f8c01191d3f6a1bd50167899133af42619ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 01/32] fix: keep discriminated context identifiers unique

A discriminated identifier (`x_y_2`) could coincide with the identifier of
another context, in which case the generated code did not compile.
---
 src/expose.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 022342f..1d3c108 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -43,7 +43,8 @@
 #include <llvm/ADT/SmallString.h>
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/StringExtras.h>
-#include <llvm/ADT/StringMap.h>
+#include <llvm/ADT/StringSet.h>
+#include <llvm/ADT/Twine.h>
 #include <llvm/ADT/iterator.h>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/ErrorHandling.h>
@@ -62,15 +63,14 @@ using namespace genpybind;
 namespace {
 
 class DiscriminateIdentifiers {
-  llvm::StringMap<unsigned> discriminators;
+  llvm::StringSet<> used;
 
 public:
   std::string discriminate(llvm::StringRef name) {
-    auto it = discriminators.try_emplace(name, 0).first;
-    const unsigned discriminator = ++it->getValue();
     std::string result{name};
-    if (discriminator != 1)
-      result += "_" + llvm::utostr(discriminator);
+    for (unsigned discriminator = 2; !used.insert(result).second;
+         ++discriminator)
+      result = (name + "_" + llvm::utostr(discriminator)).str();
     return result;
   }
 };
-- 
2.43.0


From 36ae7d70ff6172683e0b3182d3ba7857e37d196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 02/32] fix: apply noconvert/required to the named parameter
 after args

Variadic parameters were not counted when looking up the index of
a parameter, so the policies of later parameters were applied to the wrong one.
---
 src/expose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 1d3c108..29f5aa8 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -331,9 +331,9 @@ static void emitParameters(llvm::raw_ostream &os,
   const clang::ASTContext &context = function->getASTContext();
   auto printing_policy = getPrintingPolicyForExposedNames(context);
   AttemptFullQualificationPrinter printer_helper{context, printing_policy};
-  unsigned index = 0;
   const clang::ParmVarDecl *last_kwargs_param = nullptr;
   for (const clang::ParmVarDecl *param : function->parameters()) {
+    const unsigned index = param->getFunctionScopeIndex();
     // `arg()` should not be emitted for `pybind11::args` or `pybind11::kwargs`
     // parameters.  `kwargs` needs to be the last parameter of the function.
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
@@ -360,7 +360,6 @@ static void emitParameters(llvm::raw_ostream &os,
       expr->printPretty(os, &printer_helper, printing_policy, /*Indentation=*/0,
                         /*NewlineSymbol=*/"\n", &context);
     }
-    ++index;
   }
 }
 
-- 
2.43.0


From cf28efc3766d99aff5af38a26152d47aab38983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 03/32] fix: do not count 'this' in keep_alive of static
 methods

---
 src/annotated_decl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 66583bd..fec2b43 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -627,8 +627,10 @@ bool genpybind::processAnnotation(const clang::NamedDecl *decl,
     return dispatch
         .binary(LiteralValue::Kind::String,
                 [&](const LiteralValue &first, const LiteralValue &second) {
+                  const auto *method =
+                      llvm::dyn_cast<clang::CXXMethodDecl>(function_decl);
                   auto lookup = make_parameter_indices_lookup(
-                      true, llvm::isa<clang::CXXMethodDecl>(function_decl));
+                      true, method != nullptr && !method->isStatic());
                   auto first_idx = lookup(first.getString());
                   auto second_idx = lookup(second.getString());
                   if (!first_idx.has_value()) {
-- 
2.43.0


From 1188ec1f142103cd5f489bc0d13da386e92cd93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 04/32] fix: do not expose operators without a Python special
 method

They were registered under an empty name.
---
 src/expose.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 29f5aa8..da90d08 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1171,10 +1171,16 @@ void RecordExposer::emitOperator(llvm::raw_ostream &os,
       lhs_param_type = lhs_param_type->getPointeeType();
     return !ast_context.hasSameUnqualifiedType(lhs_param_type, record_type);
   }();
+  llvm::StringRef name =
+      unary ? pythonUnaryOperatorName(kind)
+            : pythonBinaryOperatorName(kind, reverse_parameters);
+
+  // Do not expose operators without a corresponding special method.
+  if (name.empty())
+    return;
+
   os << "context.def(";
-  emitStringLiteral(os,
-                    unary ? pythonUnaryOperatorName(kind)
-                          : pythonBinaryOperatorName(kind, reverse_parameters));
+  emitStringLiteral(os, name);
   os << ", ";
   emitOperatorDefinition(os, ast_context, kind, parameter_types,
                          function->getReturnType(), reverse_parameters);
-- 
2.43.0


From 19c40e533489c88cf05f10b56ee403656de0142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 05/32] fix: export values of unscoped enums without
 annotations

The documented default was only applied to annotated enums.
---
 src/expose.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index da90d08..ff9557b 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1015,9 +1015,8 @@ void EnumExposer::emitIntroducer(llvm::raw_ostream &os,
 }
 
 void EnumExposer::finalizeDefinition(llvm::raw_ostream &os) {
-  if (const auto attrs = annotations.get<EnumDeclAttrs>(enum_decl);
-      attrs.has_value() &&
-      attrs->export_values.value_or(!enum_decl->isScoped())) {
+  if (const auto attrs = annotations.lookup<EnumDeclAttrs>(enum_decl);
+      attrs.export_values.value_or(!enum_decl->isScoped())) {
     os << "context.export_values();\n";
   }
 }
-- 
2.43.0


From 7d1e6366a6e5fe3dbb33051f01533a77ecb1f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 06/32] fix: represent re-opened namespaces by an annotated
 declaration

If a namespace was first opened without annotations, its annotations
(e.g. module) on later declarations could be ignored.
---
 src/expose.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index ff9557b..5106721 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -677,8 +677,22 @@ void TranslationUnitExposer::emitModule(
   {
     llvm::DenseMap<const clang::NamespaceDecl *, const clang::DeclContext *>
         covered_namespaces;
+    // Annotations only have to match for those declarations of a re-opened
+    // namespace that are annotated or contain annotated declarations.
+    // Consequently, the namespace is represented by its first annotated decl.
+    llvm::DenseMap<const clang::NamespaceDecl *, const clang::NamespaceDecl *>
+        representatives;
+    for (const clang::DeclContext *decl_context : sorted_contexts) {
+      if (const auto *ns = llvm::dyn_cast<clang::NamespaceDecl>(decl_context)) {
+        auto &representative = representatives[ns->getCanonicalDecl()];
+        if (representative == nullptr ||
+            (!annotations.has(representative) && annotations.has(ns)))
+          representative = ns;
+      }
+    }
     DiscriminateIdentifiers used_identifiers;
     for (const clang::DeclContext *decl_context : sorted_contexts) {
+      const clang::DeclContext *exposed_context = decl_context;
       // Since the decls to expose in each context are discovered via the name
       // lookup mechanism below, it's sufficient to visit every loookup context
       // once, instead of e.g. visiting each re-opened namespace.
@@ -695,6 +709,7 @@ void TranslationUnitExposer::emitModule(
           assert(result.second);
           continue;
         }
+        exposed_context = representatives.lookup(ns->getCanonicalDecl());
       }
 
       llvm::SmallString<128> name("context");
@@ -712,8 +727,8 @@ void TranslationUnitExposer::emitModule(
       assert(result.second);
       llvm::StringRef identifier = result.first->getSecond();
       worklist.push_back(
-          {decl_context,
-           DeclContextExposer::create(graph, annotations, decl_context),
+          {exposed_context,
+           DeclContextExposer::create(graph, annotations, exposed_context),
            identifier});
     }
   }
-- 
2.43.0


From b2954a9842bfd9c25b8def10fe5d36ce91af063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:59 +0000
Subject: [PATCH 07/32] fix: apply only_expose_in to unannotated parts of a
 namespace

Declarations of a namespace for a different module were exposed, if the
namespace had also been opened without annotations.
---
 src/decl_context_graph_processing.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index fb48b58..b44f856 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -297,11 +297,19 @@ void genpybind::hideNamespacesBasedOnExposeInAnnotation(
     auto is_namespace_for_different_module = [&] {
       const auto *namespace_decl =
           llvm::dyn_cast<clang::NamespaceDecl>(it->getDecl());
-      const auto attrs = annotations.get<NamespaceDeclAttrs>(namespace_decl);
-      return attrs.has_value() && !attrs->only_expose_in.empty() &&
-             !llvm::any_of(attrs->only_expose_in, [&](llvm::StringRef name) {
-               return name == module_name;
-             });
+      if (namespace_decl == nullptr)
+        return false;
+      // The annotation also applies where the namespace is re-opened without
+      // annotations, as lookup finds the declarations of all of its parts.
+      return llvm::any_of(
+          namespace_decl->redecls(), [&](const clang::NamespaceDecl *redecl) {
+            const auto attrs = annotations.get<NamespaceDeclAttrs>(redecl);
+            return attrs.has_value() && !attrs->only_expose_in.empty() &&
+                   !llvm::any_of(attrs->only_expose_in,
+                                 [&](llvm::StringRef name) {
+                                   return name == module_name;
+                                 });
+          });
     };
     if (!visited.isDominated()) {
       if (!is_namespace_for_different_module())
-- 
2.43.0


From 2ca84188078f7da5bebfb435a39e274c4d28235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:10 +0000
Subject: [PATCH 08/32] fix: omit cv-qualifiers in front of braced default
 arguments

---
 src/expose.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 5106721..8f6bb6d 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -116,9 +116,9 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }();
 
     if (should_prepend_qualified_type_to_braced_initializer) {
-      os << clang::TypeName::getFullyQualifiedName(expr->getType(), context,
-                                                   printing_policy,
-                                                   /*WithGlobalNsPrefix=*/true);
+      os << clang::TypeName::getFullyQualifiedName(
+          expr->getType().getUnqualifiedType(), context, printing_policy,
+          /*WithGlobalNsPrefix=*/true);
       within_braced_initializer = true;
       print_recursively(expr);
       within_braced_initializer = false;
-- 
2.43.0


From f0529218fef66f0490756c58d2e2cc7e5370c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:10 +0000
Subject: [PATCH 09/32] fix: do not repeat the type of braced default arguments

---
 src/expose.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 8f6bb6d..396c57d 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -173,11 +173,17 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
       print_fully_qualified_name(cast->getType());
-      if (cast->getLParenLoc().isValid())
-        os << '(';
+      if (cast->isListInitialization()) {
+        // The type of the braced initializer has just been printed.
+        const bool was_within_braced_initializer = within_braced_initializer;
+        within_braced_initializer = true;
+        print_recursively(cast->getSubExpr());
+        within_braced_initializer = was_within_braced_initializer;
+        return true;
+      }
+      os << '(';
       print_recursively(cast->getSubExpr());
-      if (cast->getLParenLoc().isValid())
-        os << ')';
+      os << ')';
       return true;
     }
 
-- 
2.43.0


From 505e8bcee742bb4f5707113b4a3ebcee9532be44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 10/32] fix: do not print the type of the elements of braced
 initializer lists

---
 src/expose.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 396c57d..bab681c 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -196,6 +196,11 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       else
         os << (temporary->isListInitialization() ? '{' : '(');
 
+      // The type of a braced initializer has just been printed.
+      const bool was_within_braced_initializer = within_braced_initializer;
+      if (temporary->isListInitialization())
+        within_braced_initializer = true;
+
       bool comma = false;
       for (const clang::Expr *argument : temporary->arguments()) {
         if (argument->isDefaultArgument())
@@ -206,6 +211,8 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
         comma = true;
       }
 
+      within_braced_initializer = was_within_braced_initializer;
+
       if (temporary->isStdInitListInitialization())
         /* do nothing */;
       else
-- 
2.43.0


From af6db580c0b105da304f73bfa663e3b93e21bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:50 +0000
Subject: [PATCH 11/32] fix: qualify the types of sizeof and alignof in default
 arguments

---
 src/expose.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index bab681c..2bc122a 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -221,6 +221,16 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return true;
     }
 
+    if (const auto *trait =
+            llvm::dyn_cast<clang::UnaryExprOrTypeTraitExpr>(expr)) {
+      if (!trait->isArgumentType())
+        return false;
+      os << clang::getTraitSpelling(trait->getKind()) << '(';
+      print_fully_qualified_name(trait->getArgumentType());
+      os << ')';
+      return true;
+    }
+
     // Fully qualify nested name specifiers.  This corresponds to calls to
     // `getQualifier()` in `StmtPrinter`, which have to be re-defined.
 
-- 
2.43.0


From 3dd423d504fbc9db087df4013739a14cf77dd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:06 +0000
Subject: [PATCH 12/32] fix: do not use deleted methods as getters or setters

---
 src/expose.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 2bc122a..86d1103 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1375,6 +1375,8 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
     const auto *method = llvm::cast<clang::CXXMethodDecl>(decl);
     if (!method_attrs->getter_for.empty() ||
         !method_attrs->setter_for.empty()) {
+      if (method->isDeleted())
+        return;
       for (auto const &name : method_attrs->getter_for) {
         const clang::CXXMethodDecl *previous =
             std::exchange(properties[name].getter, method);
-- 
2.43.0


From 5731fd533cecfe0e6237f94e27fc594eb5125492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 13/32] fix: register bases of inlined base classes before the
 derived class

---
 .../genpybind/decl_context_graph_processing.h |  3 ++-
 src/decl_context_graph_processing.cpp         | 27 ++++++++++++-------
 src/expose.cpp                                |  2 +-
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/genpybind/decl_context_graph_processing.h b/include/genpybind/decl_context_graph_processing.h
index 2296bf1..876d760 100644
--- a/include/genpybind/decl_context_graph_processing.h
+++ b/include/genpybind/decl_context_graph_processing.h
@@ -107,12 +107,13 @@ void reportUnreachableVisibleDeclContexts(
 /// before the declaration itself, nested declarations are sorted after their
 /// `parents`.  In addition, exposed base classes (i.e. those that are also
 /// represented in the `graph`) are exposed before derived classes, as required
-/// by pybind11.
+/// by pybind11.  This includes the bases of inlined base classes.
 /// If the dependency graph contains a cycle, an empty sequence is returned and
 /// `cycle` is set to one declaration context on this cycle.
 llvm::SmallVector<const clang::DeclContext *, 0>
 declContextsSortedByDependencies(const DeclContextGraph &graph,
                                  const EnclosingScopeMap &parents,
+                                 const AnnotationStorage &annotations,
                                  const clang::SourceManager &source_manager,
                                  const clang::DeclContext **cycle);
 
diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index b44f856..d0491e6 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -451,6 +451,7 @@ lexicographicalTopologicalSort(const GraphType &graph,
 llvm::SmallVector<const clang::DeclContext *, 0>
 genpybind::declContextsSortedByDependencies(
     const DeclContextGraph &graph, const EnclosingScopeMap &parents,
+    const AnnotationStorage &annotations,
     const clang::SourceManager &source_manager,
     const clang::DeclContext **cycle) {
   auto find_predecessors = [&](const DeclContextNode *node,
@@ -464,17 +465,25 @@ genpybind::declContextsSortedByDependencies(
       add_predecessor(parent_node);
     }
     // Add all exposed (i.e. part of graph) public bases as dependencies.
+    // This is called recursively, since bases of inlined bases are exposed as
+    // bases of the derived class.
     if (const auto *decl = llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
-      for (const clang::CXXBaseSpecifier &base : decl->bases()) {
-        if (base.getAccessSpecifier() != clang::AS_public)
-          continue;
-        const clang::TagDecl *base_decl = base.getType()->getAsTagDecl();
-        if (const DeclContextNode *base_node =
-                graph.getNode(base_decl->getDefinition())) {
-          assert(base_node != nullptr && "base should be in graph");
-          add_predecessor(base_node);
+      const auto inlining_policy =
+          RecordInliningPolicy::createFromAnnotations(annotations, decl);
+      auto add_bases = [&](const clang::CXXRecordDecl *record_decl,
+                           auto &&recurse) -> void {
+        for (const clang::CXXBaseSpecifier &base : record_decl->bases()) {
+          if (base.getAccessSpecifier() != clang::AS_public)
+            continue;
+          const auto *base_decl =
+              base.getType()->getAsCXXRecordDecl()->getDefinition();
+          if (const DeclContextNode *base_node = graph.getNode(base_decl))
+            add_predecessor(base_node);
+          if (inlining_policy.shouldInline(base_decl))
+            recurse(base_decl, recurse);
         }
-      }
+      };
+      add_bases(decl, add_bases);
     }
   };
 
diff --git a/src/expose.cpp b/src/expose.cpp
index 86d1103..983fa58 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -672,7 +672,7 @@ void TranslationUnitExposer::emitModule(
 
   const clang::DeclContext *cycle = nullptr;
   const auto sorted_contexts = declContextsSortedByDependencies(
-      graph, parents, sema.getSourceManager(), &cycle);
+      graph, parents, annotations, sema.getSourceManager(), &cycle);
   if (cycle != nullptr) {
     // TODO: Report this before any other output, ideally pointing to the
     // typedef name decl for `expose_here` cycles.
-- 
2.43.0


From 233f580b7e591e3d825051573154814ea158589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:21 +0000
Subject: [PATCH 14/32] fix: derive the language standard prefix of C standards
 correctly

Command lines with, e.g., -std=gnu99 were turned into the invalid
-std=gnu99++17.
---
 src/tool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool.cpp b/src/tool.cpp
index 9967562..9a7c51a 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -407,7 +407,8 @@ clang::tooling::ArgumentsAdjuster getCpp17OrLaterAdjuster() {
       if (arg.consume_front("-std=")) {
         // HACK: Simplistic check to also allow, e.g., gnu++2a.
         auto parts = arg.split("++");
-        language_standard_prefix = parts.first;
+        // The prefix of C standards includes the year (e.g., gnu99).
+        language_standard_prefix = parts.first.starts_with("gnu") ? "gnu" : "c";
         uses_later_standard = parts.second.starts_with("2");
         if (!uses_later_standard)
           continue;
-- 
2.43.0


From 43944f4b5ba6f7ad03939b27de0614065b35534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:52 +0000
Subject: [PATCH 15/32] fix: produce identical output in every run for template
 instantiations

The instantiations of a class template share their source location, so that
the order of the corresponding graph nodes (and of warnings) was determined
by the iteration order of a hash table keyed by pointers.
---
 include/genpybind/decl_context_graph_processing.h | 4 ++--
 src/decl_context_graph_processing.cpp             | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/genpybind/decl_context_graph_processing.h b/include/genpybind/decl_context_graph_processing.h
index 876d760..e3739c6 100644
--- a/include/genpybind/decl_context_graph_processing.h
+++ b/include/genpybind/decl_context_graph_processing.h
@@ -8,7 +8,7 @@
 #include "genpybind/decl_context_graph_builder.h"
 
 #include <llvm/ADT/DenseMap.h>
-#include <llvm/ADT/DenseSet.h>
+#include <llvm/ADT/SetVector.h>
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/StringRef.h>
 
@@ -44,7 +44,7 @@ EffectiveVisibilityMap
 deriveEffectiveVisibility(const DeclContextGraph &graph,
                           const AnnotationStorage &annotations);
 
-using ConstDeclContextSet = llvm::DenseSet<const clang::DeclContext *>;
+using ConstDeclContextSet = llvm::SetVector<const clang::DeclContext *>;
 
 /// Returns the set of reachable declaration contexts, which is implicitly
 /// encoded in the domain of the effective visibility map.
diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index d0491e6..16a2b67 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -317,7 +317,7 @@ void genpybind::hideNamespacesBasedOnExposeInAnnotation(
       visited.setDominator(*it);
     }
     const clang::DeclContext *decl_context = it->getDeclContext();
-    contexts_with_visible_decls.erase(decl_context);
+    contexts_with_visible_decls.remove(decl_context);
     visibilities[decl_context] = false;
   }
 }
@@ -377,7 +377,8 @@ void genpybind::reportUnreachableVisibleDeclContexts(
     unreachable_decls.push_back(decl);
   }
 
-  llvm::sort(unreachable_decls, IsBeforeInTranslationUnit(source_manager));
+  llvm::stable_sort(unreachable_decls,
+                    IsBeforeInTranslationUnit(source_manager));
   for (const auto *decl : unreachable_decls)
     Diagnostics::report(decl, Diagnostics::Kind::UnreachableDeclContextWarning)
         << getNameForDisplay(decl);
@@ -405,7 +406,9 @@ lexicographicalTopologicalSort(const GraphType &graph,
   llvm::DenseMap<NodeRef, NodeRefs> successors(graph_size);
   std::priority_queue<NodeRef, NodeRefs, Compare> ready(comp);
 
-  for (NodeRef node : llvm::nodes(graph)) {
+  // Nodes are not necessarily ordered by `comp`, as the instantiations of a
+  // template share their location.  Visit them in a deterministic order.
+  for (NodeRef node : llvm::depth_first(graph)) {
     auto add_predecessor = [&](NodeRef other) {
       successors[other].push_back(node);
       ++num_predecessors[node];
-- 
2.43.0


From 6a386d20d0890e48c820851fe21496a0f8d5802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:11 +0000
Subject: [PATCH 16/32] fix: expose instantiations of annotated function
 templates in namespaces

A namespace whose only visible content are instantiations of a function
template was pruned, as annotations on the template itself were not found.
---
 src/decl_context_graph_processing.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 16a2b67..59d4a65 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -11,6 +11,7 @@
 
 #include <clang/AST/Decl.h>
 #include <clang/AST/DeclCXX.h>
+#include <clang/AST/DeclTemplate.h>
 #include <clang/AST/Type.h>
 #include <clang/Basic/Diagnostic.h>
 #include <clang/Basic/Specifiers.h>
@@ -236,6 +237,12 @@ ConstDeclContextSet genpybind::declContextsWithVisibleNamedDecls(
       if (decl->isImplicit())
         return false;
 
+      // Annotations of function templates are found on their specializations.
+      if (const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(decl);
+          tpl != nullptr && llvm::any_of(tpl->specializations(),
+                                         is_visible_given_default_visibility))
+        return true;
+
       return is_visible_given_default_visibility(decl);
     });
   };
-- 
2.43.0


From f12952193ba1f7280397a5cf9ef115870b5d23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:46 +0000
Subject: [PATCH 17/32] fix: hide specializations of protected and private
 member templates

---
 src/decl_context_graph_processing.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 59d4a65..f4cbb98 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -108,7 +108,13 @@ genpybind::deriveEffectiveVisibility(const DeclContextGraph &graph,
     }
 
     // Declarations with protected and private access specifiers are hidden.
-    switch (decl->getAccess()) {
+    // Template specializations are subject to the access specifier of the
+    // corresponding template.
+    clang::AccessSpecifier access = decl->getAccess();
+    if (const auto *specialization =
+            llvm::dyn_cast<clang::ClassTemplateSpecializationDecl>(decl))
+      access = specialization->getSpecializedTemplate()->getAccess();
+    switch (access) {
     case clang::AS_protected:
     case clang::AS_private:
       is_visible = false;
-- 
2.43.0


From e9c8a8d3537c86015d2c13eb7b03eff9fd1c4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:42 +0000
Subject: [PATCH 18/32] fix: avoid the name of a global declaration for the
 module variable

PYBIND11_MODULE(m, root) declares a function with a parameter called root,
which is parsed differently if root is the name of a type.
---
 src/expose.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 983fa58..782f126 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -658,6 +658,15 @@ std::string genpybind::getFullyQualifiedName(const clang::TypeDecl *decl) {
                                                 /*WithGlobalNsPrefix=*/true);
 }
 
+static bool isVisibleInGlobalScope(clang::Sema &sema, llvm::StringRef name) {
+  clang::ASTContext &context = sema.getASTContext();
+  clang::LookupResult result(sema, &context.Idents.get(name),
+                             clang::SourceLocation(),
+                             clang::Sema::LookupOrdinaryName);
+  result.suppressDiagnostics();
+  return sema.LookupQualifiedName(result, context.getTranslationUnitDecl());
+}
+
 TranslationUnitExposer::TranslationUnitExposer(
     clang::Sema &sema, const DeclContextGraph &graph,
     const EffectiveVisibilityMap &visibilities, AnnotationStorage &annotations)
@@ -686,7 +695,12 @@ void TranslationUnitExposer::emitModule(
   // `nullptr` is used in the enclosing scope map to indicate the absence of an
   // enclosing scope (which should only happen for the TU / root node).
   // Consequently, treat `nullptr` as the module root.
-  context_identifiers[nullptr] = "root";
+  // As `PYBIND11_MODULE` cannot deal with a name that denotes a type, names
+  // that are visible in global scope are avoided.
+  std::string root_identifier = "root";
+  while (isVisibleInGlobalScope(sema, root_identifier))
+    root_identifier.push_back('_');
+  context_identifiers[nullptr] = root_identifier;
 
   struct WorklistItem {
     const clang::DeclContext *decl_context;
@@ -774,7 +788,8 @@ void TranslationUnitExposer::emitModule(
   main_stream << '\n';
 
   // Emit module definition
-  main_stream << "PYBIND11_MODULE(" << module_name << ", root) {\n";
+  main_stream << "PYBIND11_MODULE(" << module_name << ", " << root_identifier
+              << ") {\n";
 
   // Emit context introducers
   for (const auto &item : worklist) {
-- 
2.43.0


From b2a0c0ef042151190c964196c4f8476a4d181b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:13 +0000
Subject: [PATCH 19/32] fix: expose declarations from inline namespaces and
 using-directives only in their own scope

---
 src/visible_decls.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/visible_decls.cpp b/src/visible_decls.cpp
index ad80a10..8ba61a8 100644
--- a/src/visible_decls.cpp
+++ b/src/visible_decls.cpp
@@ -30,6 +30,7 @@ using namespace genpybind;
 namespace {
 
 class ExposableDeclConsumer : public clang::VisibleDeclConsumer {
+  const clang::DeclContext *decl_context;
   std::optional<RecordInliningPolicy> inlining_policy;
   std::vector<const clang::NamedDecl *> &decls;
 
@@ -40,9 +41,11 @@ class ExposableDeclConsumer : public clang::VisibleDeclConsumer {
   }
 
 public:
-  ExposableDeclConsumer(std::optional<RecordInliningPolicy> inlining_policy,
+  ExposableDeclConsumer(const clang::DeclContext *decl_context,
+                        std::optional<RecordInliningPolicy> inlining_policy,
                         std::vector<const clang::NamedDecl *> &decls)
-      : inlining_policy(std::move(inlining_policy)), decls(decls) {}
+      : decl_context(decl_context->getRedeclContext()),
+        inlining_policy(std::move(inlining_policy)), decls(decls) {}
 
   bool shouldInlineDecl(clang::NamedDecl *proposed_decl) {
     // TODO: What about using declarations? Where should they be resolved?
@@ -70,6 +73,13 @@ public:
     if (in_base_class && !shouldInlineDecl(proposed_decl))
       return;
 
+    // Declarations from inline namespaces or found via using-directives belong
+    // to their own namespace.
+    if (!in_base_class &&
+        !proposed_decl->getDeclContext()->getRedeclContext()->Equals(
+            decl_context))
+      return;
+
     if (const auto *using_decl =
             llvm::dyn_cast<clang::UsingShadowDecl>(proposed_decl)) {
       proposed_decl = using_decl->getTargetDecl();
@@ -163,7 +173,8 @@ genpybind::collectVisibleDeclsFromDeclContext(
     clang::Sema &sema, const clang::DeclContext *decl_context,
     std::optional<RecordInliningPolicy> inlining_policy) {
   std::vector<const clang::NamedDecl *> decls;
-  ExposableDeclConsumer consumer(std::move(inlining_policy), decls);
+  ExposableDeclConsumer consumer(decl_context, std::move(inlining_policy),
+                                 decls);
   // Include global scope *iff* looking up decls in the TU decl context.
   bool include_global_scope = llvm::dyn_cast<clang::Decl>(decl_context) ==
                               sema.getASTContext().getTranslationUnitDecl();
-- 
2.43.0


From e4aded25873044969f5e29cbda4020ff4f3a50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:15 +0000
Subject: [PATCH 20/32] fix: use the typedef name of unnamed classes and enums

---
 src/annotated_decl.cpp |  4 ++++
 src/expose.cpp         | 32 +++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index fec2b43..54d735a 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -322,6 +322,10 @@ std::string genpybind::getSpelling(const clang::NamedDecl *decl) {
       decl->getASTContext().getPrintingPolicy();
 
   clang::DeclarationName name = decl->getDeclName();
+  // Unnamed types may still have a name for linkage purposes.
+  if (const auto *tag_decl = llvm::dyn_cast<clang::TagDecl>(decl))
+    if (const auto *alias_decl = tag_decl->getTypedefNameForAnonDecl())
+      name = alias_decl->getDeclName();
   name.print(os, policy);
 
   if (!name.isIdentifier())
diff --git a/src/expose.cpp b/src/expose.cpp
index 782f126..34cb576 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -60,6 +60,21 @@
 
 using namespace genpybind;
 
+/// Prints the scopes enclosing `decl`.  Unnamed types are referred to by their
+/// typedef name for linkage purposes, if any.
+static void emitNestedNameSpecifier(llvm::raw_ostream &os,
+                                    const clang::NamedDecl *decl,
+                                    const clang::PrintingPolicy &policy) {
+  if (const auto *parent =
+          llvm::dyn_cast<clang::TagDecl>(decl->getDeclContext());
+      parent != nullptr && parent->getTypedefNameForAnonDecl() != nullptr) {
+    os << getFullyQualifiedName(parent) << "::";
+    return;
+  }
+  os << "::";
+  decl->printNestedNameSpecifier(os, policy);
+}
+
 namespace {
 
 class DiscriminateIdentifiers {
@@ -235,8 +250,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     // `getQualifier()` in `StmtPrinter`, which have to be re-defined.
 
     if (const auto *decl_ref = llvm::dyn_cast<clang::DeclRefExpr>(expr)) {
-      os << "::";
-      decl_ref->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
+      emitNestedNameSpecifier(os, decl_ref->getFoundDecl(), printing_policy);
       if (decl_ref->hasTemplateKeyword())
         os << "template ";
       os << decl_ref->getNameInfo();
@@ -263,8 +277,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       if (!suppress_member_access_operator)
         os << (member->isArrow() ? "->" : ".");
 
-      os << "::";
-      member->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
+      emitNestedNameSpecifier(os, member->getFoundDecl(), printing_policy);
       if (member->hasTemplateKeyword())
         os << "template ";
       os << member->getMemberNameInfo();
@@ -403,8 +416,9 @@ static void emitFunctionPointer(llvm::raw_ostream &os,
   auto policy = getPrintingPolicyForExposedNames(function->getASTContext());
   os << "::pybind11::overload_cast<";
   emitParameterTypes(os, function);
-  os << ">(&::";
-  function->printQualifiedName(os, policy);
+  os << ">(&";
+  emitNestedNameSpecifier(os, function, policy);
+  os << *function;
   if (const clang::TemplateArgumentList *args =
           function->getTemplateSpecializationArgs()) {
     clang::printTemplateArgumentList(os, args->asArray(), policy);
@@ -1427,9 +1441,9 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
     os << (readonly ? "context.def_readonly" : "context.def_readwrite");
     os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
     emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl));
-    os << ", &::";
-    decl->printQualifiedName(os, printing_policy);
-    os << ");\n";
+    os << ", &";
+    emitNestedNameSpecifier(os, decl, printing_policy);
+    os << *decl << ");\n";
     return;
   }
 
-- 
2.43.0


From bc9cd3f1d7420770d12981ae1813a9c4477cc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:35 +0000
Subject: [PATCH 21/32] fix: always run manual bindings in a function of their
 own

---
 src/expose.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 34cb576..494ab55 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -443,14 +443,16 @@ static void emitManualBindings(llvm::raw_ostream &os,
   const clang::CXXMethodDecl *method = manual_bindings->getCallOperator();
   assert(method->getNumParams() == 1);
   const clang::ParmVarDecl *param = method->getParamDecl(0);
-  bool needs_context = param->isUsed() || param->isReferenced();
-  if (needs_context)
-    os << "[](auto &" << param->getName() << ") ";
+  // NOTE: The lambda is needed even if its parameter is not used, as the body
+  // may contain return statements.
+  os << "[](auto &";
+  if (param->isUsed() || param->isReferenced())
+    os << param->getName();
+  os << ") ";
   manual_bindings->getBody()->printPretty(os, nullptr, printing_policy,
                                           /*Indentation=*/0,
                                           /*NewlineSymbol=*/"\n", &context);
-  if (needs_context)
-    os << "(context);\n";
+  os << "(context);\n";
 }
 
 static std::vector<const clang::NamedDecl *>
-- 
2.43.0


From c52b67910b26016260909accd6b8ee0dfd520b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:13 +0000
Subject: [PATCH 22/32] fix: report args parameters after kwargs

---
 src/expose.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 494ab55..af8f545 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -370,6 +370,11 @@ static void emitParameters(llvm::raw_ostream &os,
   const clang::ParmVarDecl *last_kwargs_param = nullptr;
   for (const clang::ParmVarDecl *param : function->parameters()) {
     const unsigned index = param->getFunctionScopeIndex();
+    if (last_kwargs_param != nullptr) {
+      Diagnostics::report(last_kwargs_param,
+                          Diagnostics::Kind::TrailingParametersError);
+      break;
+    }
     // `arg()` should not be emitted for `pybind11::args` or `pybind11::kwargs`
     // parameters.  `kwargs` needs to be the last parameter of the function.
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
@@ -379,11 +384,6 @@ static void emitParameters(llvm::raw_ostream &os,
     } else if (!kind.empty()) {
       continue;
     }
-    if (last_kwargs_param != nullptr) {
-      Diagnostics::report(last_kwargs_param,
-                          Diagnostics::Kind::TrailingParametersError);
-      break;
-    }
     os << ", ::pybind11::arg(";
     emitStringLiteral(os, param->getName());
     os << ")";
-- 
2.43.0


From 33b46c92674a092ca49b8ce7b54fdc72ae0acf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:29 +0000
Subject: [PATCH 23/32] fix: only bind those constructors of a base class that
 are actually inherited

---
 src/expose.cpp        | 27 +++++++++++++++++++++++++++
 src/visible_decls.cpp |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index af8f545..558ef71 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -50,6 +50,7 @@
 #include <llvm/Support/ErrorHandling.h>
 #include <llvm/Support/raw_ostream.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <initializer_list>
@@ -1330,6 +1331,28 @@ void RecordExposer::emitType(llvm::raw_ostream &os) {
   os << ">";
 }
 
+/// Check whether a constructor of a base class, which is named by a
+/// using-declaration, can be used to construct `record_decl`.
+static bool
+isInheritedConstructor(const clang::CXXRecordDecl *record_decl,
+                       const clang::CXXConstructorDecl *constructor) {
+  // The access specifier of the using-declaration is ignored.
+  if (constructor->isCopyOrMoveConstructor() ||
+      constructor->getAccess() != clang::AS_public)
+    return false;
+  const clang::ASTContext &context = record_decl->getASTContext();
+  auto has_same_type = [&](const clang::ParmVarDecl *lhs,
+                           const clang::ParmVarDecl *rhs) {
+    return context.hasSameType(lhs->getType(), rhs->getType());
+  };
+  return llvm::none_of(
+      record_decl->ctors(), [&](const clang::CXXConstructorDecl *other) {
+        return std::equal(other->param_begin(), other->param_end(),
+                          constructor->param_begin(), constructor->param_end(),
+                          has_same_type);
+      });
+}
+
 void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
                                    const clang::NamedDecl *decl) {
   const clang::ASTContext &ast_context = decl->getASTContext();
@@ -1340,6 +1363,10 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
     if (constructor->isMoveConstructor() || constructor->isDeleted() ||
         record_decl->isAbstract())
       return;
+    if (constructor->getParent()->getCanonicalDecl() !=
+            record_decl->getCanonicalDecl() &&
+        !isInheritedConstructor(record_decl, constructor))
+      return;
 
     if (attrs->implicit_conversion) {
       clang::QualType from_qual_type = constructor->getParamDecl(0)->getType();
diff --git a/src/visible_decls.cpp b/src/visible_decls.cpp
index 8ba61a8..c827742 100644
--- a/src/visible_decls.cpp
+++ b/src/visible_decls.cpp
@@ -35,6 +35,8 @@ class ExposableDeclConsumer : public clang::VisibleDeclConsumer {
   std::vector<const clang::NamedDecl *> &decls;
 
   static bool isConstructor(const clang::Decl *decl) {
+    if (const auto *shadow = llvm::dyn_cast<clang::UsingShadowDecl>(decl))
+      decl = shadow->getTargetDecl();
     if (const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(decl))
       decl = tpl->getTemplatedDecl();
     return llvm::isa<clang::CXXConstructorDecl>(decl);
-- 
2.43.0


From 7ffcad7aeb9cbc4e95894770b1cf212f069b59c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 24/32] fix: do not print the type of arrays underlying
 initializer lists

A default argument such as `std::vector<int>({1, 2})` was printed as
`std::vector<int>(const int[2]{1, 2})`, which does not compile.
---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 558ef71..4ed02da 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -122,8 +122,9 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     bool should_prepend_qualified_type_to_braced_initializer = [&] {
       if (within_braced_initializer)
         return false;
+      // The array underlying a `std::initializer_list` is never spelled out.
       if (llvm::isa<clang::InitListExpr>(expr))
-        return true;
+        return !expr->getType()->isArrayType();
       if (llvm::isa<clang::CXXTemporaryObjectExpr>(expr))
         return false;
       if (const auto *constr = llvm::dyn_cast<clang::CXXConstructExpr>(expr))
-- 
2.43.0


From cf2a57191206be5d1c509c35fccf137fb792ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 25/32] fix: preserve references in casts in default arguments

The target type of casts was printed without reference, e.g. as
`const_cast<const int>(value)`, which does not compile.
---
 src/expose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 4ed02da..b9cded0 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -173,7 +173,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {
       os << '(';
-      print_fully_qualified_name(cast->getType());
+      print_fully_qualified_name(cast->getTypeAsWritten());
       os << ')';
       print_recursively(cast->getSubExpr());
       return true;
@@ -181,7 +181,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXNamedCastExpr>(expr)) {
       os << cast->getCastName() << '<';
-      print_fully_qualified_name(cast->getType());
+      print_fully_qualified_name(cast->getTypeAsWritten());
       os << ">(";
       print_recursively(cast->getSubExpr());
       os << ')';
-- 
2.43.0


From 0514d3a20585ec2d922c0fc90ef55edccb8d4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 26/32] fix: qualify the type of value-initialized scalars in
 default arguments

E.g. `Enum()` was printed as is, even if the enum is part of a namespace,
such that the generated code did not compile.
---
 src/expose.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index b9cded0..4dbc11d 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -157,7 +157,6 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     // - BuiltinBitCastExpr
     // - CXXTypeidExpr
     // - CXXUuidofExpr
-    // - CXXScalarValueInitExpr
     // - CXXUnresolvedConstructExpr
     // - TypeTraitExpr
     // - RequiresExpr
@@ -204,6 +203,12 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return true;
     }
 
+    if (llvm::isa<clang::CXXScalarValueInitExpr>(expr)) {
+      print_fully_qualified_name(expr->getType());
+      os << "()";
+      return true;
+    }
+
     if (const auto *temporary =
             llvm::dyn_cast<clang::CXXTemporaryObjectExpr>(expr)) {
       print_fully_qualified_name(temporary->getType());
-- 
2.43.0


From f364d040b065662f3d6484c3f789e85335c6ef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:30 +0000
Subject: [PATCH 27/32] fix: qualify explicit template arguments in default
 arguments

E.g. `std::make_shared<Example>()` was printed as is, even if `Example` is
part of a namespace, such that the generated code did not compile.
---
 src/expose.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 4dbc11d..32f8e92 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -170,6 +170,25 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
                                                    /*WithGlobalNsPrefix=*/true);
     };
 
+    auto print_template_arguments =
+        [&](llvm::ArrayRef<clang::TemplateArgumentLoc> arguments) {
+          os << '<';
+          bool comma = false;
+          for (const clang::TemplateArgumentLoc &location : arguments) {
+            if (comma)
+              os << ", ";
+            const clang::TemplateArgument &argument = location.getArgument();
+            if (argument.getKind() == clang::TemplateArgument::Type)
+              print_fully_qualified_name(argument.getAsType());
+            else if (argument.getKind() == clang::TemplateArgument::Expression)
+              print_recursively(argument.getAsExpr());
+            else
+              argument.print(printing_policy, os, /*IncludeType=*/false);
+            comma = true;
+          }
+          os << '>';
+        };
+
     if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {
       os << '(';
       print_fully_qualified_name(cast->getTypeAsWritten());
@@ -262,8 +281,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
         os << "template ";
       os << decl_ref->getNameInfo();
       if (decl_ref->hasExplicitTemplateArgs())
-        clang::printTemplateArgumentList(os, decl_ref->template_arguments(),
-                                         printing_policy);
+        print_template_arguments(decl_ref->template_arguments());
       return true;
     }
 
@@ -289,8 +307,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
         os << "template ";
       os << member->getMemberNameInfo();
       if (member->hasExplicitTemplateArgs())
-        clang::printTemplateArgumentList(os, member->template_arguments(),
-                                         printing_policy);
+        print_template_arguments(member->template_arguments());
       return true;
     }
 
-- 
2.43.0


From 418e38d59ef9dd1069a07c439e57943abef6a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:38 +0000
Subject: [PATCH 28/32] fix: omit default arguments of call operators in
 default arguments

A default argument such as `Callable()(1)` was printed as `Callable()(1, )`
if further arguments are provided by default, which does not compile.
---
 src/expose.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 32f8e92..128b7a9 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -262,6 +262,25 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return true;
     }
 
+    // `StmtPrinter` prints the commas preceding omitted default arguments.
+    if (const auto *call = llvm::dyn_cast<clang::CXXOperatorCallExpr>(expr);
+        call != nullptr && call->getOperator() == clang::OO_Call) {
+      print_recursively(call->getArg(0));
+      os << '(';
+      bool comma = false;
+      for (const clang::Expr *argument :
+           llvm::drop_begin(call->arguments(), 1)) {
+        if (argument->isDefaultArgument())
+          break;
+        if (comma)
+          os << ", ";
+        print_recursively(argument);
+        comma = true;
+      }
+      os << ')';
+      return true;
+    }
+
     if (const auto *trait =
             llvm::dyn_cast<clang::UnaryExprOrTypeTraitExpr>(expr)) {
       if (!trait->isArgumentType())
-- 
2.43.0


From 9ee3cddca35e36a2d7fbfb6c971e9e4a1a621b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:48 +0000
Subject: [PATCH 29/32] fix: convert default arguments to the type of
 arithmetic parameters

The default argument was passed to Python without the implicit conversion
to the type of the parameter: `unsigned n = -1` and `int n = 1.5` could then
not be called without argument, `int n = 'a'` turned into a string and
default arguments using an enum that is not exposed could not be imported.
---
 src/expose.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 128b7a9..30e9683 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -404,6 +404,26 @@ static llvm::StringRef getPybind11ArgsType(clang::QualType parameter_type) {
   return record->getName();
 }
 
+/// Check whether the object passed to Python for the default argument of an
+/// arithmetic parameter would differ from the value used in C++, since it is
+/// subject to an implicit conversion, as in `unsigned size = -1`.
+static bool hasConvertedDefaultArgument(const clang::ParmVarDecl *param) {
+  const clang::QualType to =
+      param->getType().getNonReferenceType().getCanonicalType();
+  const clang::Expr *expr =
+      param->getDefaultArg()->IgnoreUnlessSpelledInSource();
+  const clang::QualType from = expr->getType().getCanonicalType();
+  if (!to->isArithmeticType() || to->isEnumeralType() ||
+      llvm::isa<clang::InitListExpr>(expr) ||
+      from.getUnqualifiedType() == to.getUnqualifiedType())
+    return false;
+  if (to->isRealFloatingType())
+    return !from->isRealFloatingType();
+  if (to->isBooleanType() || to->isAnyCharacterType())
+    return true;
+  return !llvm::isa<clang::IntegerLiteral>(expr);
+}
+
 static void emitParameters(llvm::raw_ostream &os,
                            const clang::FunctionDecl *function,
                            const FunctionDeclAttrs &attrs) {
@@ -436,8 +456,19 @@ static void emitParameters(llvm::raw_ostream &os,
       os << ".none(false)";
     if (const clang::Expr *expr = param->getDefaultArg()) {
       os << " = ";
+      const bool is_converted = hasConvertedDefaultArgument(param);
+      if (is_converted)
+        os << "static_cast<"
+           << param->getType()
+                  .getNonReferenceType()
+                  .getCanonicalType()
+                  .getUnqualifiedType()
+                  .getAsString(printing_policy)
+           << ">(";
       expr->printPretty(os, &printer_helper, printing_policy, /*Indentation=*/0,
                         /*NewlineSymbol=*/"\n", &context);
+      if (is_converted)
+        os << ")";
     }
   }
 }
-- 
2.43.0


From b9a3e4bd6cb7f98720f15bd581d019f685e06320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:27 +0000
Subject: [PATCH 30/32] fix: initialize default arguments of fundamental and
 pointer types

Default arguments such as `unsigned(1)` or `{}` for a parameter of type
`const char *` were printed as `unsigned int(1)` and `const char *{}`, which
does not compile.
---
 src/expose.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 30e9683..fcb74fd 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -132,10 +132,20 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return false;
     }();
 
+    // Names such as `unsigned int` or `char *` cannot directly be followed by
+    // an initializer.
+    auto print_simple_type_specifier = [&](clang::QualType qual_type) {
+      const std::string name = clang::TypeName::getFullyQualifiedName(
+          qual_type, context, printing_policy, /*WithGlobalNsPrefix=*/true);
+      const bool is_simple =
+          !qual_type->isPointerType() &&
+          (!qual_type->isBuiltinType() || !llvm::StringRef(name).contains(' '));
+      os << (is_simple ? "" : "::std::remove_cv_t<") << name
+         << (is_simple ? "" : ">");
+    };
+
     if (should_prepend_qualified_type_to_braced_initializer) {
-      os << clang::TypeName::getFullyQualifiedName(
-          expr->getType().getUnqualifiedType(), context, printing_policy,
-          /*WithGlobalNsPrefix=*/true);
+      print_simple_type_specifier(expr->getType().getUnqualifiedType());
       within_braced_initializer = true;
       print_recursively(expr);
       within_braced_initializer = false;
@@ -207,7 +217,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
-      print_fully_qualified_name(cast->getType());
+      print_simple_type_specifier(cast->getType());
       if (cast->isListInitialization()) {
         // The type of the braced initializer has just been printed.
         const bool was_within_braced_initializer = within_braced_initializer;
@@ -223,7 +233,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }
 
     if (llvm::isa<clang::CXXScalarValueInitExpr>(expr)) {
-      print_fully_qualified_name(expr->getType());
+      print_simple_type_specifier(expr->getType());
       os << "()";
       return true;
     }
-- 
2.43.0


From 95132ab996cbb41fa96d46c4ad1ffba34db15ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:56 +0000
Subject: [PATCH 31/32] fix: pass None for default arguments of pointers that
 are spelled NULL or 0

The default was passed to Python as integer, such that the function could
not be called without argument.
---
 src/expose.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index fcb74fd..eb1e7db 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -414,6 +414,16 @@ static llvm::StringRef getPybind11ArgsType(clang::QualType parameter_type) {
   return record->getName();
 }
 
+/// Check whether the default argument of a pointer is spelled `0` or `NULL`.
+static bool
+hasIntegralNullPointerDefaultArgument(const clang::ParmVarDecl *param) {
+  return param->getType().getNonReferenceType()->isPointerType() &&
+         param->getDefaultArg()
+             ->IgnoreUnlessSpelledInSource()
+             ->getType()
+             ->isIntegerType();
+}
+
 /// Check whether the object passed to Python for the default argument of an
 /// arithmetic parameter would differ from the value used in C++, since it is
 /// subject to an implicit conversion, as in `unsigned size = -1`.
@@ -466,6 +476,10 @@ static void emitParameters(llvm::raw_ostream &os,
       os << ".none(false)";
     if (const clang::Expr *expr = param->getDefaultArg()) {
       os << " = ";
+      if (hasIntegralNullPointerDefaultArgument(param)) {
+        os << "nullptr";
+        continue;
+      }
       const bool is_converted = hasConvertedDefaultArgument(param);
       if (is_converted)
         os << "static_cast<"
-- 
2.43.0


From 5fb575b2240a49dbc1d3b31759201d2b7046258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:09 +0000
Subject: [PATCH 32/32] fix: do not crash for operator<< taking a class without
 name

The name of the class of the first operand was accessed unconditionally.
---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index eb1e7db..f3a28ce 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -755,7 +755,8 @@ static bool isOstreamOperator(const clang::FunctionDecl *function) {
   assert(function->getNumParams() >= 1);
   if (const clang::CXXRecordDecl *record =
           function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl()) {
-    if (!record->getIdentifier()->isStr("basic_ostream"))
+    if (record->getIdentifier() == nullptr ||
+        !record->getIdentifier()->isStr("basic_ostream"))
       return false;
     clang::ast_matchers::internal::HasNameMatcher matcher(
         {"::std::basic_ostream"});
-- 
2.43.0

