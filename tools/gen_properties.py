#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Parsing then printing reproduces the input tokens exactly",
  "Whenever a token stream is accepted as an item, converting the parsed item back to tokens yields exactly the input: the same tokens with the same text, spacing and delimiters, in the same order, with nothing dropped, added, duplicated or moved. This holds for every supported Rust declaration (all of which are accepted) and also for any malformed stream the parser happens to accept.",
  ["inputs"], "every token stream for which parsing succeeds; in particular every supported declaration with any combination of optional parts (attributes, visibility, generics, where clauses, qualifiers, trailing commas, bodies)",
  "The snapshot tests round-trip about 60 hand-written declarations, all of them built by quote! (one spacing style); the claim is about every combination of optional parts, every list length and every spacing, including streams that are not valid Rust.",
  ["src/parse.rs", "src/parse_type.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/parse_mod.rs", "src/parse_extern.rs", "src/parse_utils.rs", "src/types.rs", "src/punctuated.rs"],
  [("every consumed token is stored in a tk_* field or token list", "src/parse*.rs"), ("ToTokens impls emit the stored tokens in source order", "src/types.rs"), ("Punctuated skip_last", "src/punctuated.rs")],
  observe=["parse_item", "ToTokens for Item"])

p("C02", "Printed tokens and span() keep the original source locations",
  "Every token printed from a parsed item carries the source location it had in the input, including group delimiters and list separators, so that diagnostics point at the user's code. The span reported by a parsed item or by any of its parts that offers one starts at that part's first token and ends at its last token (where the compiler supports span joining).",
  ["inputs"], "every supported declaration and every part of it that has a span",
  "No test looks at a span at all: quote! inputs carry only call-site spans, and the snapshots print no locations.",
  ["src/types.rs", "src/types_edition.rs", "src/parse_utils.rs", "src/punctuated.rs"],
  [("GroupSpan keeps the span of each consumed group", "src/types.rs GroupSpan::quote_with"), ("implement_span! joins first and last token", "src/types_edition.rs")],
  observe=["span()", "ToTokens output spans"])

p("C03", "Declarations are accepted and classified by what they declare",
  "Every supported declaration is accepted, and is reported as the item kind its keywords denote (struct, enum, union, module, trait, impl, type alias, function, const or static, use, macro, extern block, extern crate) with the name it declares. Keyword prefixes shared between kinds (const, unsafe, extern, default, async, static) never change the outcome: each legal combination of qualifiers is resolved to the right kind with all qualifiers recorded, at top level and inside modules, impls, traits and extern blocks.",
  ["inputs"], "every supported declaration, every subset of fn qualifiers, every visibility, in every container",
  "Tests sample each kind a few times with one or two qualifier sets; the disambiguation is a lookahead with rollback over combinations of up to six optional prefixes that is only exercised on a dozen of them.",
  ["src/parse.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/parse_extern.rs", "src/parse_mod.rs"],
  [("keyword dispatch", "src/parse.rs consume_item"), ("NotFunction lookahead and rollback", "src/parse_fn.rs consume_fn"), ("consume_either_fn_type_const_static_impl", "src/parse_impl.rs")],
  observe=["Item variant", "Item::name()", "FnQualifiers"])

p("C04", "Fields and enum variants are reported exactly as declared",
  "For every struct, enum and union the parsed item lists exactly the declared fields and variants, in order, and each of them has precisely its own attributes, visibility, name, type tokens, nested fields and discriminant. The shape (unit, tuple, named) and the presence of a trailing comma are reported as written, for any number of fields and variants including none.",
  ["inputs"], "every struct, enum and union declaration, with any number and combination of fields, variants, attributes, visibilities, types and discriminants",
  "Tests use lists of at most four short fields with fixed names and a handful of types; ownership of attributes, visibility and separators across neighbouring elements is only sampled.",
  ["src/parse.rs", "src/parse_type.rs", "src/parse_utils.rs"],
  [("parse_tuple_fields / parse_named_fields / parse_enum_variants", "src/parse_type.rs"), ("consume_vis_marker", "src/parse_utils.rs"), ("consume_field_type", "src/parse_type.rs")],
  observe=["Struct.fields", "Enum.variants", "Union.fields"])

p("C05", "Generic parameters and where clauses are reported exactly as declared",
  "For every item that can have them, the parsed generic parameters are exactly the declared ones in order, each with the right kind (lifetime, type, const), name and bound tokens; and the where clause lists exactly the declared predicates, each split at the colon that separates the bounded type or lifetime from its bound. Paths containing ::, nested angle brackets, arrows, higher-ranked binders, empty lists and trailing commas do not disturb the split.",
  ["inputs"], "every generic parameter list and where clause on structs, enums, unions, functions, traits and impls",
  "Tests contain a few parameter lists and where clauses whose left sides are single identifiers; the defect that T::Item: Clone was split at :: went unnoticed because printing is unaffected.",
  ["src/parse_type.rs", "src/parse_utils.rs", "src/types_edition.rs"],
  [("consume_generic_params / consume_bound / consume_where_clause", "src/parse_type.rs"), ("consume_stuff_until angle bracket counting", "src/parse_utils.rs")],
  observe=["generic_params", "where_clause", "WhereClausePredicate::parse"])

p("C06", "Function signatures are reported exactly as declared",
  "For every function (free, associated, in a trait or in an extern block) the parsed item has exactly the declared qualifiers, ABI, name, parameters in order, return type tokens and body or semicolon. A parameter is a receiver exactly when it is self, mut self, &self or &mut self with optional lifetime; otherwise it is a typed parameter (including self: Type) with its own attributes, mutability, name and type tokens.",
  ["inputs"], "every function declaration whose parameters are receivers or identifier patterns",
  "Function tests are single snapshots with at most two parameters and never round-trip; combinations of receivers, lifetimes, attributes, trailing commas, arrows inside parameter types and where clauses are not covered.",
  ["src/parse_fn.rs", "src/parse_type.rs", "src/parse_utils.rs"],
  [("consume_fn / parse_fn_params / consume_fn_return", "src/parse_fn.rs"), ("consume_fn_qualifiers", "src/parse_fn.rs")],
  observe=["Function fields"])

p("C07", "Modules, impls, traits and extern blocks list exactly their members",
  "For every module, impl, trait and extern block the parsed item lists exactly the declared members, in order and with the right member kind, each equal to what parsing that member on its own gives; inner attributes belong to the container and outer attributes to the following member. An impl header is split into trait and self type at the for keyword between them (never at a for<...> binder), a module without body is distinguished from an empty one, and supertraits are recorded as declared.",
  ["inputs"], "every container declaration over any sequence of supported members, inner and outer attributes and headers, nested to any depth",
  "One or two snapshots per container kind; member sequences, attribute boundaries and header shapes are unbounded.",
  ["src/parse_mod.rs", "src/parse_impl.rs", "src/parse_extern.rs", "src/parse_utils.rs"],
  [("parse_impl_body / parse_impl / parse_trait", "src/parse_impl.rs"), ("parse_mod", "src/parse_mod.rs"), ("consume_inner_attributes boundary", "src/parse_utils.rs")],
  observe=["Module.members", "Impl.body_items", "Trait.body_items", "ExternBlock.body_items"])

p("C08", "Consts, statics, aliases, uses, macros, extern crates keep their parts",
  "For every const, static (mut or not), type alias or associated type, use declaration, macro item and extern crate, the parsed item records each part exactly as written: name, mutability, type, initializer, bound, aliased type, import tree, macro name, declared macro name, macro body and delimiter, crate name and rename, and terminating semicolon. Operators inside an initializer (including <, >, <<, >> and ->) never end or extend it: it always runs up to the declaration's own semicolon.",
  ["inputs"], "every such declaration, alone and followed by other declarations",
  "Tests have two or three literal examples per kind, no static mut, and no initializer with an operator other than + and *.",
  ["src/parse_impl.rs", "src/parse_mod.rs", "src/parse_fn.rs", "src/parse_extern.rs"],
  [("parse_const_or_static / consume_ty_definition", "src/parse_impl.rs"), ("parse_use_declaration", "src/parse_mod.rs"), ("consume_macro_inner", "src/parse_fn.rs"), ("consume_extern_crate", "src/parse_extern.rs")],
  observe=["Constant", "TypeAlias", "UseDeclaration", "Macro", "ExternCrate"])

p("C09", "Attributes and visibility are attached to their owner and decomposed right",
  "Every attribute is attached to exactly the item, field, variant, parameter or member it precedes (or encloses it, for inner attributes), in order, and is decomposed into its path and its value (empty, delimited group or = tokens) exactly as written; the single-segment and value-token accessors agree with that. A visibility marker is recorded exactly when one is written (pub, pub(crate), pub(self), pub(super), pub(in path), crate): a parenthesised type after pub or a path starting with crate:: is part of the type.",
  ["inputs"], "every attribute form and visibility form at every position where one is allowed",
  "Tests have one five-attribute struct and a few visibility snapshots; positions times forms are not enumerated, and the pub (A, B) and crate::T cases were wrong.",
  ["src/parse_utils.rs", "src/types_edition.rs"],
  [("consume_attributes_with_inner", "src/parse_utils.rs"), ("consume_vis_marker", "src/parse_utils.rs"), ("get_single_path_segment / get_value_tokens", "src/types_edition.rs")],
  observe=["attributes", "vis_marker", "Attribute accessors"])

p("C10", "Consuming an item takes exactly that item's tokens",
  "Consuming an item from a token iterator takes exactly the tokens of the first item and leaves every following token unconsumed and unchanged, whatever follows; consuming repeatedly from a sequence of items yields the same items as parsing each one separately. Parsing a whole stream succeeds exactly when consuming one item from it succeeds and leaves nothing behind.",
  ["histories", "inputs"], "every sequence of supported items and every continuation after an item",
  "One test checks one trailing-token case; nothing calls the consuming entry point directly or checks what is left in the iterator.",
  ["src/parse.rs", "src/parse_fn.rs", "src/parse_utils.rs"],
  [("consume_item peeks before consuming; rollback restores the iterator", "src/parse.rs, src/parse_fn.rs"), ("parse_item trailing token check", "src/parse.rs")],
  observe=["consume_item", "parse_item", "remaining iterator"])

p("C11", "Complex enum discriminants are errors; single-token ones are kept",
  "An enum whose discriminants are all single tokens or single delimited groups is accepted and each value is recorded with its own variant. An enum in which some discriminant has more than one token is reported as an error value (not a panic and not an item) whose span lies on such a discriminant, wherever the variant stands and whatever fields and attributes the variants have.",
  ["inputs"], "every enum with any assignment of discriminant expressions to variants",
  "Three fixed enums are snapshotted, always with the offending value on the last variant.",
  ["src/parse_type.rs", "src/parse.rs", "src/error.rs"],
  [("consume_enum_discriminant", "src/parse_type.rs"), ("Result propagation in consume_item", "src/parse.rs")],
  observe=["parse_item result", "EnumVariant.value", "Error::span"])

p("C12", "Malformed streams are rejected in finite time, never silently patched",
  "Parsing any token stream terminates, gives the same outcome every time, and either rejects the stream (panic or error value) or returns an item that prints back to it. In particular it rejects: streams without an item; declarations without a name or without the body, parameter list or terminating semicolon their kind requires (const, static, type, use, extern crate, bodiless mod and fn, parenthesised or bracketed macro) or with one of them in the wrong kind of brackets; fields, parameters and constants without a colon and fields and parameters without a type; doubled commas between fields, variants, parameters or generic parameters; variants and receivers not followed by a comma or the end of the list; tokens left over after the item; unmatched closing angle brackets; members their container cannot hold; inner attributes where only outer ones may stand; const mut. All of these are rejected by panic or error value.",
  ["inputs"], "every finite token stream, valid or not",
  "Ten should_panic tests; the space of malformed streams is everything else.",
  ["src/parse.rs", "src/parse_type.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/parse_utils.rs"],
  [("panics in parse_xxx helpers", "src/parse_utils.rs"), ("trailing token check", "src/parse.rs"), ("allow_static and member kind filter", "src/parse_impl.rs parse_impl_body")],
  observe=["parse_item outcome"])

p("C13", "Adding generic params and predicates edits the declaration as documented",
  "After any sequence of parameter and predicate additions to a parsed struct, enum or union, its generic list and where clause are the original ones plus exactly the added ones: lifetime parameters go to the front of the list, other parameters and predicates to the end, and a missing list or clause is created. Everything else is unchanged, the result prints as a well-formed declaration that parses back to the same lists, and the derived where clause consists of the original predicates plus one predicate for the given trait per type parameter and none for lifetime or const parameters.",
  ["histories", "inputs"], "every sequence of builder calls from every starting declaration (no list, empty list, trailing comma, any mix of kinds)",
  "Tests apply a single builder call to three structs and never call the derive helper; sequences, enums, unions and the separator state left by a previous call are not covered.",
  ["src/types_edition.rs", "src/punctuated.rs"],
  [("with_param / with_where_predicate / create_derive_where_clause", "src/types_edition.rs"), ("Punctuated::insert and push", "src/punctuated.rs")],
  observe=["generic_params", "where_clause", "printed tokens"])

p("C14", "Generic arguments derived from parameters name each parameter once",
  "The inline generic arguments of a parameter list, both printed and converted to an owned argument list, name exactly the declared parameters in order: lifetimes with their apostrophe, types and consts by name, with no bounds, defaults or const keywords; the owned list keeps the separators of the parameter list, spacing included. The lifetime, type and const parameter queries partition the declared parameters by kind, preserving order.",
  ["inputs", "histories"], "every generic parameter list, parsed or built",
  "One test with one four-parameter list; the printed form is never checked, nor are the queries.",
  ["src/types_edition.rs", "src/types.rs"],
  [("ToTokens for InlineGenericArgs", "src/types.rs"), ("to_owned_args, get_*_params, is_lifetime/is_ty/is_const", "src/types_edition.rs")],
  observe=["as_inline_args", "to_owned_args", "get_lifetime_params", "get_type_params", "get_const_params"])

p("C15", "Comma-separated lists keep items and separators through any edits",
  "After any sequence of pushes and inserts, a separated list contains the given items in the resulting order, each followed by the separator given with it or by a default comma if none was given, except that the last item has no separator when it was added without one. Iterating items, iterating separators, length, indexing and printing all agree with that, and inserting past the end panics without changing the list.",
  ["histories"], "every sequence of list operations",
  "The list type has no test of its own; only parser-driven pushes and one insert at the front are exercised.",
  ["src/punctuated.rs"],
  [("inner and skip_last", "src/punctuated.rs")],
  state=[("skip_last", "whether the last separator is virtual", "src/punctuated.rs"), ("inner", "items with separators", "src/punctuated.rs")],
  observe=["items()", "punct()", "len()", "Deref", "ToTokens"])

p("C16", "Type expressions are read as paths exactly when they are paths",
  "Interpreting a type expression as a path succeeds for every plain path type (optional leading ::, any number of segments, each with optional generic arguments in either the direct or the turbofish form), whether or not it is wrapped in one invisible group, and yields its segments and arguments exactly as written: lifetimes, Name = Type bindings and other arguments, in order. It returns nothing, and does not panic, for reference, pointer, tuple, array, slice, never, trait-object, impl-trait, function-pointer and qualified (<T as Trait>::X) types; a returned path prints back to the type's tokens.",
  ["inputs"], "every type expression",
  "Four tests; all inputs come from quote!, which hid that :: directly followed by < was not recognised.",
  ["src/types_edition.rs", "src/parse_utils.rs", "src/parse_type.rs"],
  [("TypeExpr::as_path, unwrap_invisible_group", "src/types_edition.rs"), ("consume_path, consume_colon2", "src/parse_utils.rs"), ("consume_generic_args, parse_generic_arg", "src/parse_type.rs")],
  observe=["TypeExpr::as_path", "Path segments"])

p("C17", "Errors render every message once, in order, at its location",
  "For every error built from messages by creation and combination in any order, rendering it yields one compile_error invocation per message, in combination order, each complete, so that it can stand where items are expected (braced or followed by a semicolon), with the exact message text (whatever characters it contains) and located at the span, tokens or call site it was created with. Its displayed text is the first message and its span is that of the first message.",
  ["histories", "inputs"], "every tree of combine calls over every kind of constructor and message text",
  "No test constructs an error.",
  ["src/error.rs"],
  [("messages vector, combine, to_compile_error", "src/error.rs")],
  observe=["to_compile_error", "Display", "Debug", "span"])

p("C18", "Convenience accessors agree with the parsed declaration",
  "For every parsed item the generic accessors (attributes, generic parameters, name, per-kind views, shared and mutable) give exactly the corresponding part of that item and nothing for kinds that lack it. A struct's field names, field tokens and field types list its fields in declaration order (decimal indices for tuple structs); an enum is C-like exactly when every variant is a unit variant, written without parentheses or braces; a variant's single type is given exactly when it is a tuple variant with one field.",
  ["inputs"], "every supported declaration",
  "Most accessors are never called by a test; the others only in a doc example.",
  ["src/types_edition.rs"],
  [("Item accessors", "src/types_edition.rs"), ("Struct::field_names/field_tokens/field_types, Enum::is_c_enum, EnumVariant::get_single_type", "src/types_edition.rs")],
  observe=["Item::*", "Struct::field_*", "Enum::is_c_enum", "EnumVariant::*"])

p("C19", "Meaning does not depend on whitespace or where the tokens come from",
  "The parsed structure of a declaration is the same whether its punctuation is written tightly or with spaces, and whether its tokens come from source text or are assembled by another macro: flipping the spacing of a punctuation token changes the structure only if it makes or breaks a :: or a lifetime. A type or bound supplied as an invisible group (as by a macro_rules fragment) is kept as one opaque token in its place, with the rest of the declaration unchanged.",
  ["inputs"], "every supported declaration, every spacing of its punctuation, every subset of its type positions wrapped in invisible groups",
  "All tests build tokens with quote!, one spacing style, and a single invisible group in one position.",
  ["src/parse_utils.rs", "src/parse_type.rs", "src/types_edition.rs"],
  [("matching on as_char() only", "src/parse_utils.rs"), ("consume_colon2", "src/parse_utils.rs")],
  observe=["parsed structure"])

p("C20", "Editing or cloning a parsed item affects exactly what was edited",
  "A clone of a parsed item prints like the original and is independent of it. After replacing parts of a parsed item through its public interface (name, attributes, visibility, generics, where clause, fields, variants, parameters, members, body, type), printing gives the original declaration with exactly those parts replaced and everything else verbatim; in particular a struct whose fields are replaced by named fields prints as a well-formed declaration with its where clause before the braces and no semicolon.",
  ["histories", "inputs"], "every sequence of part replacements on every supported declaration",
  "Tests edit a struct with one builder call at a time and never replace a part or clone.",
  ["src/types.rs", "src/types_edition.rs"],
  [("ToTokens impls print current field values", "src/types.rs"), ("derive(Clone)", "src/types.rs")],
  observe=["ToTokens after edits"])

p("C21", "Opaque expressions are captured whole, in every position",
  "Wherever a type, bound or path expression is captured without being parsed (field, parameter, return, const, alias, bound, where predicate, impl header, supertrait, use tree, generic argument), it is captured as exactly the tokens that Rust syntax assigns to it. Commas, semicolons, equals signs, colons, where and for keywords and braces nested in brackets or angle brackets do not end it, the > of an arrow is not taken for a closing bracket, and the first separator outside any nesting does end it.",
  ["inputs"], "every type, bound and path expression, in every capturing position, followed by every terminator allowed there",
  "Tests have about ten type expressions, mostly in tuple struct fields; the defect in struct S<F: Fn() -> T> shows that positions and expressions must be combined.",
  ["src/parse_utils.rs", "src/parse_type.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/parse_mod.rs"],
  [("consume_stuff_until", "src/parse_utils.rs"), ("end predicates at each call site", "src/parse_type.rs, src/parse_fn.rs, src/parse_impl.rs, src/parse_mod.rs")],
  observe=["TypeExpr.tokens", "GenericBound.tokens", "WhereClausePredicate", "UseDeclaration.import_tree"])

p("C22", "Every part of a parsed item prints exactly its own tokens",
  "Every part of a parsed item that can be converted to tokens on its own (items, members, attributes and attribute values, visibilities, generic parameter lists and parameters, bounds, where clauses and predicates, fields and field lists, variants and discriminants, function parameters and receivers, qualifiers, types and paths, initializers, import trees, separated lists) prints as exactly the tokens it was written with in the declaration: nothing of its neighbours, nothing missing, nothing added. The result is the same when it is printed alone, appended after other tokens, printed repeatedly or from a clone.",
  ["inputs"], "every printable part of every supported declaration",
  "Tests print whole items; parts are what derive macros interpolate with quote!, and hardly any is printed on its own.",
  ["src/types.rs", "src/punctuated.rs"],
  [("ToTokens impls", "src/types.rs"), ("ToTokens for Punctuated", "src/punctuated.rs")],
  observe=["ToTokens of every part"])

p("C23", "Debug output of any part is total, stable and complete",
  "Formatting a parsed item, or any part of it, for debugging, in compact or pretty form, never panics, gives the same text every time and for a clone, and shows every identifier and literal that the part was written with (the where keyword aside) at least as often as it was written.",
  ["inputs"], "every part of every supported declaration",
  "Snapshot tests show the debug text of some fifty declarations; the hand-written Debug impls of attributes, groups, types and lists must hold for all.",
  ["src/types.rs", "src/punctuated.rs"],
  [("hand-written Debug impls", "src/types.rs")],
  observe=["Debug of every part"])

p("C24", "Names, literals and group contents never influence how a declaration is read",
  "Replacing a name in a declaration by any other name (contextual keywords such as union, default or auto, raw identifiers, non-ASCII or very long names, names of well-known items or attributes), a literal by any other literal, or the contents of a group that venial passes through (function bodies, macro input, attribute arguments, grouped discriminants and initializers, tuple, array and parenthesised types, grouped import trees) by any other token sequence, changes nothing in the reported structure except that very name, literal or content: it is still accepted and prints back exactly. The same holds if all names of a declaration are made equal.",
  ["inputs"], "every name and literal position of every supported declaration, every name and literal, every content of an opaque group",
  "Tests use a few conventional names; nothing distinguishes a parser that looks into a body, or that treats a field called default or union specially.",
  ["src/parse.rs", "src/parse_fn.rs", "src/parse_impl.rs", "src/parse_type.rs", "src/parse_utils.rs"],
  [("keyword tests on identifiers", "src/parse.rs, src/parse_fn.rs, src/parse_impl.rs, src/parse_utils.rs"), ("consume_any_ident, consume_item_name", "src/parse_utils.rs, src/parse_type.rs")],
  observe=["parsed structure", "ToTokens"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
