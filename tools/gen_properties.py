#!/usr/bin/env python3
"""Writes properties.jsonl (the list of properties is maintained here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
REG = "the sequence of registrations the generated module performs when it is imported (classes, enums, submodules, functions, attributes)"
DIA = "diagnostics and exit status of genpybind-tool"

prop("C01", "A declaration is exposed exactly when its effective visibility says so",
 "A namespace member, class, enum, class member or enumerator is registered with Python if and only if it is effectively visible: its own annotation decides if it has one (any non-empty annotation on a non-namespace declaration means visible unless it says hidden, visible(false) or visible(default)), otherwise it inherits from the enclosing scope, starting from hidden at file scope. Private and protected classes, enums and members are not exposed by inheritance, a hidden class conceals everything nested in it no matter how that is annotated, and a namespace annotation only changes the default of what it contains.",
 ["programs"], "for every nesting of namespaces, classes, enums and members, every placement of visible/hidden/visible(default)/other annotations and every access specifier",
 "The tests fix a few dozen nestings; the rule is recursive and its cases (default under hidden under visible, private, concealed by a hidden class, namespace whose only visible content is deep below) combine without bound.",
 ["src/decl_context_graph_processing.cpp", "src/annotated_decl.cpp", "src/expose.cpp", "src/visible_decls.cpp"],
 [("effective visibility derivation", "deriveEffectiveVisibility"), ("pruning of hidden subtrees", "declContextsWithVisibleNamedDecls, pruneGraph"), ("implicit visible for annotated declarations", "AnnotationStorage::insert"), ("per-declaration check while exposing", "DeclContextExposer::handleDecl")], [REG])

prop("C02", "Every exposed entity lands in the right Python scope under the right name",
 "A registered entity is placed in the Python object of its nearest enclosing class or module namespace (namespaces without module are transparent, the extension module itself is outermost), under its expose_as name if one is given and its C++ name otherwise; module(name) names the submodule. Names that are not identifiers are turned into one, and the last of several expose_as/module names wins with expose_as(default) restoring the C++ name.",
 ["programs"], "for every nesting of module and non-module namespaces and classes and every combination of naming annotations",
 "Tests sample single namings and two-level nestings; scoping is a recursive rule over arbitrary nestings.",
 ["src/decl_context_graph_processing.cpp", "src/expose.cpp", "src/annotated_decl.cpp", "src/string_utils.cpp"],
 [("enclosing Python scope", "findEnclosingScopes"), ("name", "emitSpelling, getSpelling, makeValidIdentifier"), ("introducers", "emitIntroducer")], [REG])

prop("C03", "expose_here moves a type to its alias exactly once; alias cycles/duplicates fail",
 "A class or enum named by an expose_here alias is registered exactly once, in the scope of the alias, under the alias' name (or its expose_as) and with the alias' visibility, and nothing remains at its original place, while everything nested in it moves along. encourage makes the target visible where it is and the alias an additional name for it; other visible aliases only add a name. Two expose_here aliases for one type, aliases whose moves form a cycle, and annotated aliases of anything but a class or enum are reported as errors and produce no bindings.",
 ["programs"], "for every set of aliases over every set of types and scopes, including moves into moved types, self-moves and cycles of any length",
 "Cycle and duplicate detection quantify over all alias graphs; tests contain a handful.",
 ["src/decl_context_graph_builder.cpp", "src/annotated_decl.cpp", "src/decl_context_graph_processing.cpp", "src/expose.cpp"],
 [("relocation", "DeclContextGraphBuilder::addEdgeForExposeHereAlias"), ("alias annotations propagate", "propagateAnnotations"), ("cycles", "reportExposeHereCycles")], [REG, DIA])

prop("C04", "Registration order respects scopes and bases and is deterministic",
 "When the module is imported, every class, enum or submodule is created after the Python scope containing it and every class after each of its public base classes that is exposed, all of them before any member is registered; beyond these constraints classes, enums and the members (hence overloads) of one scope are registered in source order. If scopes and bases depend on each other cyclically the run fails, and the same input always yields identical output.",
 ["programs", "configurations"], "for every inheritance/nesting/relocation structure, repeated runs included",
 "A wrong order shows up only for particular combinations of relocation, inheritance and source order; pointer-order nondeterminism shows up only in some runs.",
 ["src/decl_context_graph_processing.cpp", "src/expose.cpp", "src/sort_decls.cpp"],
 [("topological order", "lexicographicalTopologicalSort, declContextsSortedByDependencies"), ("member order", "TranslationUnitExposer::emitModule")], [REG, "generated files"])

prop("C05", "only_expose_in restricts a namespace to the listed modules",
 "Everything declared in a namespace annotated only_expose_in(names), at any depth and including types moved into it, is exposed if and only if the name of the module being generated is one of the names (for every such namespace around it); everything outside such namespaces is unaffected, and skipping a namespace for this reason causes no diagnostics.",
 ["programs", "configurations"], "for every placement of only_expose_in lists (nested, reopened, around moved types) and every module name",
 "Tests use one header with two module names.",
 ["src/decl_context_graph_processing.cpp", "src/tool.cpp"],
 [("hiding of foreign namespaces", "hideNamespacesBasedOnExposeInAnnotation")], [REG, DIA])

prop("C06", "Annotation text is understood exactly or rejected",
 "An annotation text is a comma-separated list of known annotation names, each optionally followed by a parenthesised comma-separated list of literals (a trailing comma is allowed in both): unsigned integers, double-quoted strings kept verbatim, true/false/default, or bare identifiers meaning strings. A text of that form has exactly that meaning; every other text is reported as an error at the annotated declaration and nothing is generated.",
 ["inputs"], "for every text",
 "Unit tests parse about fifty texts; the language is infinite, including whitespace, escapes, nested quotes, overflowing integers and unterminated constructs.",
 ["src/annotations/parser.cpp", "src/annotations/literal_value.cpp", "src/annotated_decl.cpp"],
 [("tokenizer and parser", "annotations::Parser")], [REG, DIA])

prop("C07", "Annotations are accepted only where they apply and with valid arguments",
 "Each annotation is accepted only on the kinds of declaration it is meant for, with the number and types of arguments it takes, and where it names something (a Python name, parameter, 'this'/'return') only if that is valid there; getter_for/setter_for, implicit_conversion, manual and postamble also require a suitable declaration, and encourage excludes expose_here. Any other use is an error reported at that declaration - every such error in the file, and no error elsewhere - and no bindings are generated.",
 ["programs", "inputs"], "for every annotation on every kind of declaration with every argument list",
 "There are about 25 annotations x 15 kinds of declaration x argument shapes; tests contain a selection.",
 ["src/annotated_decl.cpp"],
 [("dispatch per declaration kind", "processAnnotation overloads, ArgumentsDispatcher"), ("invalid annotation error", "AnnotationStorage::insert")], [DIA])

prop("C08", "A failed run exits non-zero and leaves no generated files behind",
 "The tool exits with zero if and only if it reported no error (--xfail inverts that), whatever the stage: compiler errors, annotations, aliases, cycles, properties, unusable output paths. After a failed run no output path holds newly generated content and no temporary file remains, unless --keep-output-files was given; after a successful run every requested output path holds the complete code.",
 ["fault_sequences", "configurations"], "for every stage at which an error can occur, every number of outputs and every position of an unusable one, with and without pre-existing files",
 "Tests look at the exit code of a few erroneous headers and never at the files.",
 ["src/tool.cpp"],
 [("erase outputs on error", "GenpybindAction::shouldEraseOutputFiles"), ("bail-outs", "GenpybindASTConsumer::HandleTranslationUnit")], ["file system state before/after", "exit status"])

prop("C09", "Splitting the output over several files does not change the module",
 "For any number of output files, also more than there is code to distribute, each file compiles on its own, together they link, every piece of binding code is defined in exactly one of them, and importing the result performs the same registrations in the same order as the single-file output. The code is distributed in consecutive runs over all files as evenly as possible.",
 ["programs", "configurations"], "for every program and every number of output files",
 "Tests use at most a few fixed splits and do not compare them.",
 ["src/expose.cpp", "src/tool.cpp"],
 [("chunked distribution", "TranslationUnitExposer::emitModule"), ("includes in every file", "GenpybindASTConsumer::HandleTranslationUnit")], ["generated files", REG])

prop("C10", "Every callable is bound to exactly that C++ function with its signature",
 "Each visible function, method and constructor overload is registered exactly once and calling the binding calls exactly that overload: static methods as static, operator() as __call__, with its parameter names, default values (those that C++ would use, converted to the parameter's type if that is arithmetic or a pointer) and brief documentation comment, in declaration order. Deleted functions, move constructors and constructors of abstract classes are not bound; implicit default and copy constructors are bound where C++ provides them, and constructors inherited by a using-declaration where C++ inherits them.",
 ["programs"], "for every set of overloads, parameter lists, default arguments, comments and special member functions",
 "Tests sample signatures; overload resolution, qualification of default values, comment escaping etc. depend on the combination.",
 ["src/expose.cpp", "src/instantiate_default_arguments.cpp"],
 [("function pointers and parameters", "emitFunctionPointer, emitParameters"), ("constructors", "RecordExposer::handleDeclImpl"), ("default arguments", "AttemptFullQualificationPrinter")], [REG])

prop("C11", "Call policies apply to exactly the named parameters",
 "noconvert and required mark exactly the parameters they name, keep_alive(a, b) ties exactly the named entities (return value, instance, parameters, numbered the way pybind11 counts them for that kind of callable), return_value_policy is passed on, and implicit_conversion adds an implicit conversion from the constructor's parameter type; no other parameter or callable is affected. Variadic args/kwargs parameters do not disturb this, and any parameter after kwargs is an error.",
 ["programs"], "for every parameter list and every combination of policies on functions, methods, static methods and constructors",
 "Index arithmetic over parameter positions; tests use first/second parameters only.",
 ["src/annotated_decl.cpp", "src/expose.cpp"],
 [("parameter lookup", "processAnnotation(FunctionDeclAttrs)"), ("emission", "emitParameters, emitPolicies")], [REG, DIA])

prop("C12", "getter_for/setter_for define exactly the requested properties",
 "For each property name mentioned on visible methods of a class (inlined bases included) exactly one property is registered, reading through the method annotated getter_for and writing through the one annotated setter_for if any; such methods are not exposed as methods. A property with a setter only, or with two getters or two setters, is an error.",
 ["programs"], "for every assignment of getter/setter names to methods, with several names per method, hidden methods and inheritance",
 "Pairing is over all methods of a class; tests have few pairs.",
 ["src/expose.cpp", "src/annotated_decl.cpp"],
 [("pairing", "RecordExposer::handleDeclImpl, emitProperties")], [REG, DIA])

prop("C13", "Operators become the right Python special methods with the right operands",
 "Each visible overloaded operator that has a Python counterpart - a member, a friend or a free function found for the operand's type - is registered on every exposed class among its operand types under the matching special name (reflected if the class is only the right operand), and calling it applies that very operator to the operands in C++ order. Operators without counterpart and deleted or hidden ones are not registered; stream output operators only if named via expose_as.",
 ["programs"], "for every operator, operand type combination (value/reference/const), placement (member, friend, namespace) and nesting",
 "About 40 operators x placements x operand orders; tests cover most names but few combinations.",
 ["src/expose.cpp"],
 [("operator names", "pythonUnaryOperatorName, pythonBinaryOperatorName"), ("lookup", "collectOperatorDeclsViaArgumentDependentLookup"), ("wrapper", "emitOperator")], [REG])

prop("C14", "Base classes: exposed, hidden or inlined as annotated",
 "A class is registered with exactly those public base classes that are exposed and not listed in hide_base; members of inline_base bases (reached through public, non-hidden inheritance, transitively with their own inline/hide annotations) are registered on the derived class itself exactly once, unless hidden by a same-named member, and the bases of an inlined base take its place. Non-public bases contribute nothing, and a name matching no base only causes a warning.",
 ["programs"], "for every inheritance graph (multiple, virtual, diamonds, any access) and every set of hide_base/inline_base annotations",
 "The tests contain a few hierarchies of depth two or three.",
 ["src/visible_decls.cpp", "src/expose.cpp", "src/annotated_decl.cpp"],
 [("inlining policy", "RecordInliningPolicy"), ("base list", "RecordExposer::emitType")], [REG, DIA])

prop("C15", "Reopened namespaces act as one, and must be annotated consistently",
 "However often a namespace is reopened, it yields at most one Python scope holding all its visible content exactly once. A reopening that is annotated or contains annotated declarations has to carry the same annotations as the first such one, otherwise an error is reported at it and nothing is generated; other reopenings need no annotations.",
 ["programs"], "for every sequence of reopenings with every annotation and content",
 "Tests have two or three reopenings.",
 ["src/lookup_context_collector.cpp", "include/genpybind/lookup_context_collector.h", "src/expose.cpp"],
 [("consistency check", "errorIfAnnotationsDoNotMatchFirstDecl"), ("merged emission", "TranslationUnitExposer::emitModule (covered namespaces)")], [REG, DIA])

prop("C16", "Template instantiations are exposed when requested, completely and once",
 "A specialization of a class or function template that the header asks for - by explicit instantiation or specialization, by an annotated alias, as base class or as type of a data member - is treated like an ordinary class or function declared in its template's scope, with the template's access, annotations and members (nested types, default arguments, operators), named Name_args_ after its arguments unless renamed, and registered at most once however often it is asked for. Specializations that are merely mentioned are not exposed.",
 ["programs"], "for every set of templates, template arguments, aliases and explicit instantiations or specializations, nested and chained; contradictory visibility on a template and its explicit instantiation, and classes nested in instantiations nothing forced to be complete, are outside the claim",
 "Tests contain single instantiations per feature.",
 ["src/instantiate_annotated_templates.cpp", "src/instantiate_default_arguments.cpp", "src/expose.cpp"],
 [("forced instantiation", "InstantiateAnnotatedTemplatesASTConsumer"), ("default arguments", "InstantiateDefaultArgumentsASTConsumer")], [REG])

prop("C17", "Enums register exactly their visible enumerators with the right values",
 "An exposed enum registers each non-hidden enumerator once, in order, under its (re)name and with its C++ value and documentation; values are exported into the enclosing scope if and only if export_values says so, defaulting to yes for unscoped and no for scoped enums; arithmetic is enabled exactly when annotated.",
 ["programs"], "for every enum (scoped, unscoped, typed, nested, moved) and annotation combination",
 "Tests sample a few enums.",
 ["src/expose.cpp", "src/annotated_decl.cpp"],
 [("EnumExposer", "src/expose.cpp")], [REG])

prop("C18", "Variables and data members are exposed with correct access",
 "A visible data member is registered as an attribute of its class reading and writing that very member, a static one as a static attribute; it is read-only exactly if it is const or annotated readonly. A visible namespace-scope variable becomes an attribute of its module holding the variable's value; private and protected members are never exposed.",
 ["programs"], "for every combination of type, constness, storage, access, annotation and inheritance",
 "Tests sample a few fields.",
 ["src/expose.cpp"],
 [("fields and variables", "RecordExposer::handleDeclImpl, DeclContextExposer::handleDeclImpl")], [REG])

prop("C19", "Manual bindings run once, in the right scope and at the right time",
 "Each accessible GENPYBIND_MANUAL block is executed exactly once during import with the Python object of its enclosing scope as parent, at its place in source order among the members of that scope, provided the scope is exposed; blocks marked postamble (file scope only) run with the module after everything else has been registered, in source order.",
 ["programs"], "for every placement of manual blocks in files, namespaces and classes",
 "Tests have few blocks.",
 ["src/expose.cpp", "src/annotated_decl.cpp"],
 [("manual bindings", "emitManualBindings, postamble loop in emitModule")], [REG, DIA])

prop("C20", "Module name, includes and language mode of a run are derived correctly",
 "The generated module is named by --module-name or else by the input file's name made an identifier; each output file includes the input header, then the files of all #pragma genpybind include directives in order, which also take effect while parsing. Input is always parsed as C++17 or, if requested, a later standard (keeping a GNU dialect), whatever -x and -std= flags are given, and with __GENPYBIND__ defined; flags come from the command line or a compilation database, and generated code goes to standard output if no output is given. Malformed pragmas and unusable command lines make the run fail.",
 ["configurations", "inputs"], "for every file name, flag list and list of pragmas",
 "Tests cover one or two flags and names.",
 ["src/tool.cpp", "src/pragmas.cpp", "src/string_utils.cpp"],
 [("argument adjusters", "getCpp17OrLaterAdjuster"), ("pragma handler", "PragmaGenpybindHandler")], ["generated files", REG])

prop("C21", "Generated code compiles whatever the declarations are called",
 "For every header accepted without error, the generated files compile against that header and pybind11 provided the exposed declarations are public, can be named by their qualified name and used from file scope, pybind11 supports them (no bit-fields, reference members, arrays, C variadics, ref- or volatile-qualified methods), and global names do not start with expose_: names of classes, enums, namespaces, functions, variables and parameters never clash with each other or with names the generator introduces, in any combination of nesting, overloading, shadowing and reuse of names.",
 ["programs"], "for every choice of names and nestings",
 "Clashes need particular name combinations that tests do not contain.",
 ["src/expose.cpp"],
 [("unique identifiers", "DiscriminateIdentifiers"), ("qualified names", "getFullyQualifiedName, AttemptFullQualificationPrinter")], ["compiling the generated files"])

prop("C22", "Warnings point at exactly the declarations whose bindings would get lost",
 "A warning is issued for exactly each class or enum that contains visible declarations but is not exposed because it or a class around it is hidden (on the alias if it was moved by expose_here), for hide_base/inline_base names that match no base, and for annotated aliases with cv-qualified target; warnings change neither the exit status nor the generated bindings.",
 ["programs"], "for every nesting, annotation placement and relocation",
 "Tests contain a few warnings; absence of warnings elsewhere is not checked.",
 ["src/decl_context_graph_processing.cpp", "src/lookup_context_collector.cpp", "src/annotated_decl.cpp"],
 [("unreachable contexts", "reportUnreachableVisibleDeclContexts"), ("alias qualifiers", "warnIfAliasHasQualifiers")], [DIA])

prop("C23", "Class options apply to exactly the annotated class",
 "Every exposed class is registered with the options given on that class and no others: dynamic_attr (unless false), the type named by holder_type (the last one given) as holder, and its brief documentation comment. Neither enclosing, nested, base or derived classes nor aliases pass any of them on, and they are kept when the class is moved by expose_here.",
 ["programs"], "for every class in every nesting, inheritance and relocation and every combination of options",
 "Tests annotate single classes; that options stay with their class has to hold for all structures.",
 ["src/expose.cpp", "src/annotated_decl.cpp"],
 [("class introducer", "RecordExposer::emitType, emitIntroducer"), ("option parsing", "RecordDeclAttrs")], [REG])

prop("C24", "Printed declaration graphs show scopes, places and visibility as used",
 "The tree printed with --dump-graph=visibility contains every namespace block, class, enum and requested specialization of the input exactly once, below the scope it is exposed in (moved ones below the scope of their expose_here alias), with the Python name it gets if annotations change it and its effective visibility; the one printed with --dump-graph=pruned contains of these exactly the classes and enums that get exposed and the namespaces around visible content. Printing changes neither the generated code nor diagnostics and exit status.",
 ["programs"], "for every nesting, annotation placement and relocation",
 "Tests print a few small graphs.",
 ["src/inspect_graph.cpp", "src/decl_context_graph_builder.cpp", "src/decl_context_graph_processing.cpp", "src/tool.cpp"],
 [("graph printer", "GraphPrinter, inspectGraph"), ("graph", "buildGraph, pruneGraph, deriveEffectiveVisibility")], ["standard error of --dump-graph", "generated files"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
