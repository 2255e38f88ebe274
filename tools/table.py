T += [
P("P01", "Data of any type behaves as a tree of independent typed values",
  "A value written to any part of a data object (through any combination of members, elements, keys and selected cases) is what every later read of that part returns, until it is written again. "
  "Writing one part never changes another part. Data that nobody has written reads as the default of its type: zeros, empty strings and collections.",
  ["histories", "inputs"], "all types that can be composed from the kinds of the library, all sequences of writes on their nodes",
  "The tests write and read a few fixed types once; the guarantee is about every composition of types and every order of writes.",
  [I + "DynamicData.hpp", I + "StructType.hpp", I + "UnionType.hpp", I + "SequenceInstance.hpp", I + "MapInstance.hpp", I + "ArrayType.hpp", I + "PairType.hpp", I + "StringType.hpp", I + "PrimitiveType.hpp", I + "EnumeratedType.hpp"],
  [("instances laid out at member offsets and block sizes", I + "AggregationType.hpp"), ("instance construction and copy by type", I + "Instanceable.hpp")],
  "stateful model-based random histories on generated types, compared with a reference model after every operation", "Types up to depth 4, with chains of up to 300 levels now and then; collections up to 60 elements, and single blocks of up to 131080 elements."),
P("P02", "Copies are deep and independent; moves keep the value",
  "Data that is copied, moved, assigned (also to itself, or through references to parts of it) has the value of its source at that moment, whatever its own previous value was. "
  "Later changes of either one do not reach the other. Data that was moved from can still be assigned and destroyed.",
  ["histories", "inputs"], "all types, all sequences of copy, move, assignment, extraction and write operations among several data",
  "The tests copy a handful of fixed types; independence must hold for every type composition and every interleaving of copies and writes.",
  [I + "DynamicData.hpp", I + "StructType.hpp", I + "UnionType.hpp", I + "SequenceInstance.hpp", I + "MapInstance.hpp", I + "ArrayType.hpp"],
  [("copy_instance / move_instance of every type", I + "Instanceable.hpp"), ("copy and move operations of the data", I + "DynamicData.hpp")],
  "random histories of copies, moves, assignments and writes over a pool of data, each compared with its own model", "Three data per history, up to 9 operations."),
P("P03", "No history of operations corrupts or leaks memory",
  "Whatever sequence of calls is made on data, including calls that are refused with an exception, no memory outside the live objects is read or written. "
  "When the data and the types of a history are destroyed, all the memory they acquired has been released exactly once. Data stays usable when the type object it was created from is destroyed before it.",
  ["histories", "inputs", "fault_sequences"], "all types, all sequences of accepted and refused operations, all orders of destruction",
  "The tests run few histories and their valgrind run excludes the refused operations; memory errors need particular histories.",
  [I + "DynamicData.hpp", I + "SequenceInstance.hpp", I + "MapInstance.hpp", I + "UnionType.hpp", I + "StringType.hpp", I + "DynamicType.hpp"],
  [("instance life cycle: construct, copy, move, destroy", I + "Instanceable.hpp"), ("ownership of types by data", I + "DynamicType.hpp")],
  "random histories of right and wrong calls under AddressSanitizer and UBSan, with heap-balance as leak oracle", "Reads of uninitialised memory are only seen when they change a result."),
P("P04", "A sequence is a vector with an optional bound; an array has fixed size",
  "Pushing appends, resizing appends default values and never removes, and size, index access, iteration and conversion to a native vector all show the same elements in order. "
  "A push or resize over the bound of a sequence and an access past the end are refused and change nothing. A sequence can be given its own elements.",
  ["histories", "inputs"], "all element types, bounds and sequences of operations",
  "The tests push a few elements of a few types; growth, reallocation and bounds depend on the history and on the element type.",
  [I + "SequenceInstance.hpp", I + "SequenceType.hpp", I + "ArrayType.hpp", I + "CollectionType.hpp", I + "DynamicData.hpp"],
  [("growth of the storage of a sequence", I + "SequenceInstance.hpp")],
  "model-based random histories against std::vector", "Up to 320 operations per history; up to 150000 elements of primitive types."),
P("P05", "A map associates each key, identified by its value, with one value",
  "Accessing, inserting, testing and iterating a map behave as on a dictionary in which two keys are the same exactly when they compare equal, whatever their type, hash, or order of insertion. "
  "Inserting a pair whose key is present, or anything new in a full map, is refused and changes nothing. Two maps with the same entries are equal and have the same hash.",
  ["histories", "inputs"], "all key and value types, bounds and sequences of operations",
  "The tests use few keys, whose hashes never meet; ordering by hash, reallocation and collisions depend on key values and on the history.",
  [I + "MapInstance.hpp", I + "MapType.hpp", I + "PairType.hpp", I + "DynamicData.hpp"],
  [("entries kept ordered by the hash of the key", I + "MapInstance.hpp")],
  "model-based random histories against std::map", "Keys that are NaN are not used."),
P("P06", "Equality compares the whole trees of values, and equal data hash alike",
  "Two data of one type are equal exactly when every corresponding part has the same value, independently of how each one was built. "
  "Equality is symmetric, is the negation of inequality, and equal data have equal hashes. The hash depends on the content.",
  ["inputs", "histories"], "all types and all pairs of values, in particular pairs that differ in one part",
  "The tests compare few fixed values; a comparison or hash that skips one part is only seen by a pair that differs there.",
  [I + "DynamicData.hpp", I + "Instanceable.hpp", I + "SequenceInstance.hpp", I + "MapInstance.hpp", I + "UnionType.hpp", I + "StructType.hpp", I + "PrimitiveType.hpp", I + "StringType.hpp"],
  [("compare_instance and hash of every type", I + "Instanceable.hpp")],
  "metamorphic pairs (built twice; one change) with the reference model as oracle", "Only that many different values do not all share a hash is required of unequal values."),
P("P07", "Strings keep every character and respect their bound",
  "A string of any of the three character widths reads back exactly the characters written, including embedded zeros, values out of the ASCII range and any length. "
  "A string with a bound keeps the first characters up to the bound, by every way of writing, copying or converting, and an unbounded one keeps them all. Strings of other character widths and numbers are refused without changing it.",
  ["inputs", "histories"], "all strings of the three widths, all bounds, all ways of writing or copying them",
  "The tests write a few short ASCII strings; truncation and storage depend on the length, the bound and the way the string arrives.",
  [I + "StringType.hpp", I + "DynamicData.hpp"],
  [("truncation by bound", I + "StringType.hpp"), ("copy between bounds", I + "StringType.hpp")],
  "random strings and bounds against the native string truncated at the bound", "Lengths up to 80000 characters."),
P("P08", "Enumerations: names and increasing values are one to one, and data obeys them",
  "The enumerators of an enumeration keep the names and values they were added with; a value given by default follows the previous one, and an addition with a repeated name or a value that isn't greater than the previous ones is refused and changes nothing. "
  "Looking a name up by value and a value up by name are inverse of each other, also in the types built from the enumeration. "
  "Data of an enumeration only accepts, in its own width, values of its enumerators, and any other value is refused and leaves the data as it was.",
  ["inputs", "histories"], "enumerations of the three widths, all sequences of additions, all written values",
  "The tests use two small enumerations of 32 bits; widths, gaps, limits and refused values are not sampled.",
  [I + "EnumerationType.hpp", I + "EnumeratedType.hpp", I + "DynamicData.hpp", I + "PrimitiveType.hpp"],
  [("increasing values", I + "EnumerationType.hpp"), ("validation of written values", I + "DynamicData.hpp"), ("width of an enumeration when converted", I + "PrimitiveType.hpp")],
  "random construction histories and writes against a list of pairs", "Up to 1500 enumerators."),
P("P09", "Unions: the discriminator and the selected case always agree",
  "At any moment a union has at most one selected case, and its discriminator is one of the labels of that case (or one that no case has, if it is the default). Selecting another case gives it a default value; setting a discriminator of the selected case changes only the discriminator, and one of another case is refused. "
  "Reading a case that isn't selected is refused. "
  "A case with a label of another case or a reserved one, a repeated name, or a second default is refused and the union type stays as it was; labels given as text mean the same as those given as numbers.",
  ["histories", "inputs"], "all discriminator types, label sets, orders of selection, assignment, copy and conversion",
  "The tests follow one path over two unions; consistency depends on labels, widths, signs, defaults and the order of operations.",
  [I + "UnionType.hpp", I + "DynamicData.hpp"],
  [("selection by name and by discriminator", I + "UnionType.hpp"), ("labels stored in the width of the discriminator", I + "UnionType.hpp"), ("reserved labels", I + "UnionType.hpp")],
  "stateful model of cases, labels and selection driven by random histories", "Up to 66 cases and 10 operations; selecting a case may choose any of its labels."),
P("P10", "Type compatibility tells how two types differ, and gates assignment",
  "Asking whether two types are compatible answers which differences must be ignored to take one for the other, the same in both directions: signs, widths, bounds, names, members, and nothing for equal types. "
  "Aliases, and structs that only wrap one member, count as what they stand for. Data is accepted in an assignment, a push or a use as key exactly when the types are equal in that sense; otherwise it is refused and nothing changes.",
  ["inputs"], "all pairs of types, except those for which the answer of the library depends on the direction (enumeration and primitive, one-member struct and larger struct)",
  "The tests ask about a few pairs of types of one level; differences combine at every level of nesting.",
  [I + "TypeConsistency.hpp", I + "PrimitiveType.hpp", I + "StructType.hpp", I + "UnionType.hpp", I + "AliasType.hpp", I + "SequenceType.hpp", I + "ArrayType.hpp", I + "MapType.hpp", I + "StringType.hpp", I + "EnumeratedType.hpp"],
  [("is_compatible of every type", I + "TypeConsistency.hpp"), ("the checks of the operations of the data", I + "DynamicData.hpp")],
  "generated pairs of nearly equal types against an independent reference of the consistency", "Types up to depth 4, chains of up to 24 levels now and then."),
P("P11", "Data created from data of a compatible type has its value, converted",
  "Data of one type that is created from data of another compatible type holds the converted value: numbers are cast, strings and sequences cut to the bound, arrays cut or filled with defaults, members and cases matched by position. "
  "The source does not change and the two are independent. Between incompatible types (or maps whose contents are not of the same type) the creation is refused and leaks nothing.",
  ["inputs", "histories"], "all pairs of compatible types and all values",
  "The tests convert a few values of fixed types; conversions nest in every composition of types.",
  [I + "DynamicData.hpp", I + "PrimitiveType.hpp", I + "StructType.hpp", I + "UnionType.hpp", I + "SequenceInstance.hpp", I + "MapInstance.hpp", I + "ArrayType.hpp", I + "StringType.hpp", I + "PairType.hpp"],
  [("copy_instance_from_type of every type", I + "Instanceable.hpp")],
  "generated pairs of types and values against a reference conversion, with heap balance", "Which entry is kept where converted keys of a map meet is left open."),
P("P12", "Arithmetic and bitwise operators compute what C++ computes",
  "Unary, binary, increment and compound assignment operators on data of a numeric type give the value, truncated to that type, that C++ gives on native operands, and change nothing but the left side of an assignment. "
  "Operators that a type does not have (or with a right side of another type) are refused and change nothing.",
  ["inputs", "histories"], "all numeric types, all operand values for which C++ defines the result, all sequences of operations",
  "The tests compute a few results with small numbers; truncation, promotion and signs depend on operand values and widths.",
  [I + "DynamicDataImpl.hpp", I + "DynamicData.hpp", "README.md"],
  [("operators by type", I + "DynamicDataImpl.hpp")],
  "random histories of operators compared with native arithmetic", "Operations that are undefined in C++ are not made; post-increment returns the new value, as documented."),
P("P13", "Comparing, testing and casting data gives what C++ gives",
  "The comparison and logical operators on data of one primitive type, and casts of primitive and enumeration data to any primitive type or to text, give what C++ gives on the native values. "
  "Where a type has no such operator or cast, or the other side is of another type, the operation is refused. None of them changes the data.",
  ["inputs"], "all primitive types and enumerations, all values, special floating point values included",
  "The tests compare a few numbers per type; the operators are instantiated type by type and each could be wrong for its limits.",
  [I + "DynamicDataImpl.hpp", I + "DynamicData.hpp"],
  [("comparison, logic and cast by type", I + "DynamicDataImpl.hpp")],
  "generated operands compared with native operators, and sorting as metamorphic relation", "Casts that are undefined in C++ are not made; the value of an enumeration counts as an integer of its width."),
P("P14", "Visiting data or a type reaches every node once, parents first, in order",
  "A traversal of data calls the visitor once for each node: the data itself, then the members of a struct in order, the elements of collections in order, both sides of a pair, and only the selected case of a union. "
  "Each node tells its data, type, depth, index, member and parent as in the tree. A traversal of a type does the same with its members and contents. "
  "A visitor can write through the nodes, and stops the traversal by throwing a boolean, which is what the traversal returns.",
  ["inputs"], "all types and all values",
  "The tests visit two fixed trees; the tree depends on how containers nest, which are empty and which case is selected.",
  [I + "DynamicData.hpp", I + "Instanceable.hpp", I + "DynamicType.hpp", I + "StructType.hpp", I + "UnionType.hpp", I + "MapType.hpp", I + "SequenceInstance.hpp", "README.md"],
  [("for_each of data and types", I + "Instanceable.hpp")],
  "traversals of random trees against the list of nodes derived from the model", "Types up to depth 4, with chains of up to 300 levels now and then."),
P("P15", "Every way to reach the elements of data finds the same elements, in order",
  "Iterating data, indexing it, looking its members or keys up, listing its items, and taking it as a native vector show the same elements in the same order, as many as its size tells. "
  "What is written through an iterator is in the data. "
  "An index out of range, a member that isn't there, or a way that the type does not have is refused.",
  ["inputs"], "all types and all values, iterators copied, assigned or outliving the reference they come from",
  "The tests iterate a few collections; the agreement must hold for every content type, size and nesting.",
  [I + "DynamicData.hpp", I + "CollectionType.hpp", I + "SequenceInstance.hpp", I + "MapInstance.hpp", I + "ArrayType.hpp", I + "StringType.hpp"],
  [("Iterator and MemberIterator", I + "DynamicData.hpp"), ("as_vector", I + "DynamicData.hpp")],
  "random values; the ways of access are compared with each other and with the model", "Types up to depth 4, with chains of up to 300 levels now and then."),
P("P16", "Structures keep their members in order, named once, apart from other types",
  "A structure has the members of its parent followed by those added to it, in order, each with its name, type and annotations. A repeated name or a wrong member is refused and leaves the structure as it was. "
  "Copies and derived structures do not change with the one they come from, and data keeps the members that its structure had when it was created, each one independent of the others.",
  ["histories", "inputs"], "all histories of adding, annotating, inheriting, copying and renaming, members of all types",
  "The tests build a few fixed structures; offsets, names and inheritance depend on which members of which sizes come in which order.",
  [I + "StructType.hpp", I + "AggregationType.hpp", I + "Member.hpp", I + "Annotation.hpp"],
  [("members and their names", I + "AggregationType.hpp"), ("inheritance", I + "StructType.hpp")],
  "stateful model of structures driven by random histories", "Up to 5 structures and 12 operations."),
P("P17", "A type tells what it is made of, whatever happens to the types it was made from",
  "Names, bounds, dimensions, content types, members, labels and enumerators that a type tells are those it was made with. They stay so when the types it was made from are renamed, extended or destroyed, when it is copied or held by a pointer, and in the type of the data created from it.",
  ["histories"], "all types not owned by a shared pointer, all histories of composing, copying, changing and destroying them",
  "The tests read types back right after making them; sharing shows only when a part changes or dies later.",
  [I + "DynamicType.hpp", I + "CollectionType.hpp", I + "ArrayType.hpp", I + "MapType.hpp", I + "PairType.hpp", I + "UnionType.hpp", I + "AliasType.hpp", I + "EnumeratedType.hpp", I + "StructType.hpp"],
  [("DynamicType::Ptr clones", I + "DynamicType.hpp"), ("every type", I)],
  "stateful model of a pool of types driven by random histories", "Up to 8 types and 14 operations."),
P("P18", "A wrong operation on data throws an exception and changes nothing",
  "Built with exceptions, an operation that a type does not have, or with a value, member, key, index, case or discriminator that is not valid, throws. The data, and all the rest of its tree, keep their value.",
  ["inputs", "histories"], "all types, all kinds of operations, in any node of the data",
  "The tests refuse one operation per kind of type; checks are per operation and type, and a missing or late check reads or writes out of bounds.",
  [I + "DynamicData.hpp", I + "DynamicDataImpl.hpp", I + "Assert.hpp", I + "UnionType.hpp"],
  [("xtypes_assert at the entry of the operations", I + "DynamicData.hpp")],
  "random data and wrong operations derived from the model, under sanitizers", "Types up to depth 4, with chains of up to 300 levels now and then."),
P("P19", "Text converts between UTF-8 and wide characters exactly, at any length",
  "Valid UTF-8 text converted to char16_t or wchar_t text is the same sequence of characters, and converts back to the same bytes, whatever its length. Text that is not valid is refused.",
  ["inputs"], "all texts of any length and mix of one to four bytes characters, zero included; wrong sequences at any place",
  "The tests convert three short texts; the conversion works in blocks and a character can fall on the end of one.",
  [I + "StringConversion.hpp"],
  [("code_conversion_tool", I + "StringConversion.hpp")],
  "differential against encoders written from the standards, and round trip", "wchar_t is checked in the locale C.UTF-8; what the C library takes as valid there is not judged."),
P("P20", "Looking a symbol up by name finds what the rules of IDL say",
  "A simple name is that of the innermost enclosing module that declares it. A scoped name is looked up from the module that asks outwards, and an absolute one from the root. "
  "A name that does not exist finds nothing, and no lookup changes a module.",
  ["inputs"], "all trees of modules, symbols of all kinds, names repeated at several levels",
  "The tests look a few names up in one tree; which symbol hides which depends on the shape of the tree and on where the question is asked.",
  [I + "idl/Module.hpp"],
  [("resolve_scope", I + "idl/Module.hpp"), ("has_symbol, type, structure, union_switch, enum_32, alias, constant", I + "idl/Module.hpp")],
  "random module trees against an independent lookup", "Up to 16 modules."),
P("P21", "Modules keep each symbol once, under its scoped name, and refuse the rest",
  "A type, alias or constant registered in a module is found there with the same definition, and a type given by reference takes its scoped name. A repeated or scoped name is refused and leaves the module and the type as they were, unless a replacement is asked for. "
  "Counts and listings tell exactly what was registered, and what the user does later with the type that he gave does not change the module.",
  ["histories"], "all histories of registering, repeating, replacing and creating submodules",
  "The tests register each kind once; refusals and replacements interact with what five containers hold.",
  [I + "idl/Module.hpp"],
  [("structure, union_switch, enum_32, create_alias, create_constant, create_submodule", I + "idl/Module.hpp")],
  "stateful model of modules driven by random histories", "Up to 6 modules and 16 operations."),
P("P22", "The IDL generated from a module declares exactly what the module has",
  "The IDL generated from a module has the same modules, structures, unions, enumerations, aliases and constants, with the same members, types, bounds, dimensions, labels and values. "
  "Each one is declared after those that it uses, every name in it means the declaration that it stands for, and generating it does not change the module. The IDL generated from a structure alone declares it as the one of its module does.",
  ["inputs"], "all trees of modules without circular dependencies, types of all kinds that use each other across modules, equal names at several levels",
  "The tests compare the text of a few modules; the order and the names depend on which types use which ones, and on the scopes that hide others.",
  [I + "idl/generator.hpp", I + "idl/generator_deptree.hpp"],
  [("dependency tree of the declarations", I + "idl/generator_deptree.hpp"), ("text of each type", I + "idl/generator.hpp")],
  "random modules whose generated IDL is read by an independent reader of IDL that enforces order and scopes", "Annotations are not judged; values of enumerators, arrays inside of collections and the dependencies of a structure generated alone are known findings. Up to 6 modules and 10 symbols."),
P("P23", "The text of data shows every node of its tree",
  "to_string() and operator << write one line per node of the data, in the order of a traversal and indented by its depth, with the member or index, the type, and the value of primitives and strings as text in UTF-8. "
  "The text of a reference to a part is the one of that part as a whole, and writing it does not change the data.",
  ["inputs"], "all types and values with valid text, unions with a case selected and nesting of any depth",
  "The tests print a few structures and look at no output; the text of each kind of node depends on the one that contains it.",
  [I + "DynamicData.hpp", I + "StringConversion.hpp"],
  [("to_string, operator <<", I + "DynamicDataImpl.hpp")],
  "random data whose text is compared with the one written from the tree of the model", "Wide text is valid Unicode. Enumerations show only their type. Types up to depth 4, with chains of up to 300 levels now and then."),
P("P24", "What is parsed from an IDL text is what the text declares",
  "A valid IDL text is accepted, and the module has exactly the modules, structures, unions, enumerations, aliases and constants of the text, with the same members, types, bounds, dimensions, labels and values, under their scoped names, "
  "however the text is written: spaces, comments, line markers, annotations, bases of the integers, escapes, declarators in one line, forward declarations and any valid way to name a type. "
  "A text that uses what isn't declared, declares a name twice or names something as a keyword is refused, unless the options of the context (ignore_redefinition, allow_keyword_identifiers) say otherwise; "
  "with clear, what was parsed before is forgotten, and without it, it is kept. The IDL generated from the module declares the same again.",
  ["inputs", "histories"], "all texts of the supported IDL, with names repeated at several levels, in one text or in several ones",
  "The tests parse some thirty texts (and none in this build, as cpp-peglib is missing); the grammar, the scopes, the literals and the order of the declarations interact.",
  [I + "idl/parser.hpp", I + "idl/grammar.hpp", I + "idl/generator.hpp"],
  [("Parser and its actions", I + "idl/parser.hpp"), ("IDL grammar", I + "idl/grammar.hpp"), ("module()", I + "idl/generator.hpp")],
  "random IDL texts, written together with what they declare, whose module is compared with that", "cpp-peglib isn't installed here: a stand-in written for this check takes its place. Content of annotations, bitsets, bitmasks and expressions as bounds are not judged."),
P("P25", "The value of an IDL constant expression is the one of its arithmetic",
  "The constants and the labels of an IDL text have the value of their expressions: the precedence of the operators and their association to the left are those of IDL, literals can be in any base, "
  "and other constants stand for their values, converted to the type of the expression. An expression without value (a division by zero, a shift of all the bits, an unknown constant or one of other kind) is refused.",
  ["inputs"], "all expressions of integers of 8 to 64 bits and of floating point numbers whose intermediate results their type can represent",
  "The tests evaluate a few expressions; precedence, association, signs and limits of every type interact in expressions of any size.",
  [I + "idl/parser.hpp", I + "idl/grammar.hpp"],
  [("solve_expr, solve_operation, get_literal_value", I + "idl/parser.hpp"), ("CONST_EXPR", I + "idl/grammar.hpp")],
  "random expression trees written with minimal parentheses, evaluated independently in 128 bits", "cpp-peglib isn't installed here: a stand-in written for this check takes its place. Overflow inside of an expression and shifts of negative numbers are not judged."),
P("P26", "No text harms the parser, nor what is parsed after it",
  "Parsing any text, right or wrong, ends with success, without it or with an exception of the standard library; it never crashes, hangs or touches memory that isn't its own. "
  "A context never tells that a refused text was parsed, and a text parsed later, in the same context (which is cleaned up) or in other one, declares exactly what it says. "
  "The log has the events of the level asked for and of those more severe, and what is logged doesn't change what is parsed.",
  ["inputs", "histories"], "all sequences of texts, with any mutation of tokens and bytes, and all options of the context",
  "The tests check a few wrong texts, one by one; the parser is a singleton with a state, and the ways to be wrong are endless.",
  [I + "idl/parser.hpp", I + "idl/grammar.hpp", I + "idl/Module.hpp"],
  [("Parser::parse, Context", I + "idl/parser.hpp"), ("exceptions of the parser", I + "idl/parser.hpp")],
  "mutation fuzzing of generated IDL texts under sanitizers, followed by a text whose declarations are known", "cpp-peglib isn't installed here: a stand-in written for this check takes its place. Nesting is up to 25 levels."),
P("P27", "The preprocessor gets exactly the text or the file that the user gives",
  "The text of preprocess_string() and the files of preprocess_file(), parse_file() and the includes reach the preprocessor as they are, for any text of any length and any names of files and of include paths, "
  "with both strategies. No shell interprets anything of them, and no file is left behind. "
  "A file that is not there is not parsed with success.",
  ["inputs"], "all texts and names, with the characters that a shell, printf or the preprocessor interprets",
  "The tests preprocess four files with plain names; what a shell makes of a text depends on its characters.",
  [I + "idl/parser.hpp", I + "idl/idl.hpp"],
  [("preprocess_string, preprocess_file", I + "idl/parser.hpp"), ("preprocess(), parse_file()", I + "idl/idl.hpp")],
  "differential against the preprocessor executed without a shell, and texts whose declarations are known", "Runs unprivileged in a scratch directory. GNU cpp only."),
P("P28", "Threads may read the same types, data and modules, or use their own ones",
  "Several threads may read the same types, data and modules at the same time (values, iteration, traversal, text, hash, comparison, copies, conversions, new data of a type, lookups, generation of IDL), "
  "and threads that build, change and destroy types, data and modules of their own do not affect each other: in every schedule each thread gets what the same operations give alone, and there is no data race.",
  ["schedules", "histories", "inputs"], "all schedules of threads that only share what none of them changes, over all types and values",
  "The tests have one thread; a value kept from one call to the next (a cache, a buffer, a lazy initialization) gives the right result in all of them.",
  [I + "DynamicData.hpp", I + "DynamicDataImpl.hpp", I + "AggregationType.hpp", I + "PrimitiveType.hpp", I + "StringConversion.hpp", I + "idl/Module.hpp", I + "idl/generator.hpp"],
  [("primitive_type(): the types that all threads share", I + "PrimitiveType.hpp"), ("lookups of members and labels", I + "AggregationType.hpp"), ("lookups of symbols", I + "idl/Module.hpp")],
  "random read and write histories in 2-4 threads under ThreadSanitizer, compared with the model and with the same operations alone",
  "Races are found by happens-before on the executed paths; the standard library isn't instrumented, so what its functions write is only judged by its results."),
P("P29", "Texts parsed by several threads are parsed as if each was alone",
  "Threads that parse IDL at the same time, each with its own context, get exactly what their texts declare, with the log, errors and generated IDL that the same parse gives alone, in every schedule and without data races: "
  "through parse() and parse_file(), whose parser is shared (also when it is created or destroyed meanwhile), and through parsers of their own.",
  ["schedules", "inputs"], "all schedules of threads that parse texts, right or wrong, with different contexts",
  "The tests parse in one thread; the parser behind parse() is one for all the threads, and keeps the context of the parse.",
  [I + "idl/parser.hpp", I + "idl/idl.hpp"],
  [("Parser::instance(), destroy()", I + "idl/parser.hpp"), ("Parser::parse and its context", I + "idl/parser.hpp")],
  "random IDL texts parsed in 2-4 threads under ThreadSanitizer, compared with what they declare and with the same parse alone",
  "cpp-peglib isn't installed here: a stand-in written for this check takes its place. A context is used by one thread."),
P("P30", "The log and the errors of the parser tell what is wrong, and where",
  "A right text leaves no error or warning in the log, and a literal of other kind than its type leaves a warning. A definition that is refused leaves one error, with the message of the exception, and both tell a place inside of that definition; "
  "if the grammar refuses the text, the log tells why. The log keeps, in order, exactly the entries of its level and of the more severe ones; log(level, strict) selects them; print_log prints them; none of it changes what is parsed.",
  ["inputs"], "all IDL texts with at most one wrong definition, and all levels and options of the log",
  "The tests count the entries of one text; which entry is left, and its place, depends on what is wrong and on all that is around.",
  [I + "idl/parser.hpp"],
  [("LogContext", I + "idl/parser.hpp"), ("Parser::exception", I + "idl/parser.hpp"), ("checks of identifiers and literals", I + "idl/parser.hpp")],
  "random IDL texts with wrong definitions and literals at known places, parsed at several levels of the log and compared with each other and with those places",
  "cpp-peglib isn't installed here: a stand-in written for this check takes its place. The columns are only judged in lines of ASCII; errors of syntax are judged without their place; the texts of the messages are not judged."),
]
