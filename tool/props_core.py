from props import P

H = "include/NeoFOAM/core/"
S = "src/core/"

P("C01", "A dictionary stores, finds and removes entries exactly by key",
  "After inserting a value under a key the dictionary contains exactly the earlier entries with that key mapped to the "
  "new value, and after removing a key exactly the other entries remain. Element, typed and sub-dictionary accessors give "
  "access to the stored entry itself, and emptiness, key listing, construction from a map or list of pairs, and copying "
  "all agree with that content, a copy being independent of its source.",
  ["inputs", "histories"], "every dictionary content (any number of keys, any stored types, nested dictionaries) and every sequence of operations on it",
  "the tests insert a handful of fixed keys and read them back; they cannot cover every content, key and order of operations",
  [H + "dictionary.hpp", S + "dictionary.cpp"],
  [("hash map of type-erased values", H + "dictionary.hpp"), ("insert/remove/contains/keys", S + "dictionary.cpp")],
  state=[("entries", "key to value map", H + "dictionary.hpp")], observe=["contains", "keys", "empty", "operator[]", "get", "subDict", "getMap"])

P("C02", "Failed dictionary lookups throw and never create or alter entries",
  "Looking up an absent key through any accessor throws std::out_of_range, and a typed or sub-dictionary lookup of a value "
  "whose stored type is not exactly the requested one throws std::bad_any_cast. No lookup or query, successful or not, "
  "adds, removes or changes an entry. Asking whether a key holds a dictionary never throws and is true exactly when it does.",
  ["inputs", "histories"], "every dictionary, key and requested type",
  "tests try one absent key and one wrong type and do not look at the dictionary afterwards",
  [H + "dictionary.hpp", S + "dictionary.cpp", H + "demangle.hpp"],
  [("checked element access, logging and rethrow", S + "dictionary.cpp"), ("typed get", H + "dictionary.hpp")],
  observe=["operator[]", "get", "subDict", "isDict", "contains"])

P("C03", "A token list is an ordered sequence with checked typed access",
  "A token list holds exactly the tokens it was built from and those appended afterwards, in order; removing a token by a "
  "valid index or popping the first one takes out exactly that token and keeps the order of the rest. Reading token i as type "
  "T yields that token if it exists with that type, and otherwise throws std::out_of_range or std::bad_any_cast while "
  "the list stays as it was; size and emptiness agree with the content and a copy is independent of its source.",
  ["inputs", "histories"], "every token list (any length and token types), every index and every sequence of operations",
  "tests use lists of two to four tokens and a few positions",
  [H + "tokenList.hpp", S + "tokenList.cpp"],
  [("vector of type-erased tokens", H + "tokenList.hpp"), ("insert/remove", S + "tokenList.cpp")],
  state=[("tokens", "ordered tokens", H + "tokenList.hpp")], observe=["get", "size", "empty", "popFront", "tokens"])

P("C04", "The token list cursor advances by exactly one successful read at a time",
  "Successive calls of next yield the tokens one after the other from the list's start position; a call that fails (no "
  "token left, or wrong type) throws and leaves the cursor where it was, so that it can be retried. Nothing else moves the cursor: "
  "not indexed access, appending, popping, removing or queries. A copy continues at its source's position, independently of it.",
  ["inputs", "histories"], "every token list, start position and interleaving of reads with other operations",
  "tests read a short list front to back once",
  [H + "tokenList.hpp", S + "tokenList.cpp"],
  [("next() and the mutable cursor", H + "tokenList.hpp")], state=[("cursor", "index of the next token", H + "tokenList.hpp")],
  observe=["next"])

P("C05", "The database keeps the first collection registered under a name",
  "Registering a collection under a free name stores it and returns it; under a taken name it keeps the registered collection "
  "untouched and returns that one. Access by a name that is not registered throws std::out_of_range and registers nothing; removal reports "
  "whether the name was registered and affects no other name. Contains and size agree with the registered names, and the registration "
  "validator throws std::runtime_error with the given message exactly for objects that are not registered.",
  ["inputs", "histories"], "every database content, name and sequence of operations",
  "tests register one or two collections under different names",
  [H + "database/database.hpp", S + "database/database.cpp"],
  [("insertion that keeps an existing entry", S + "database/database.cpp"), ("checked access", S + "database/database.cpp")],
  observe=["insert", "contains", "remove", "at", "size", "validateRegistration"])

P("C06", "A collection handle answers from the collection stored in it",
  "Every query on a type-erased collection handle (document by id, find, size, type, name, database) gives exactly what the stored collection "
  "answers for the same arguments. Converting it back yields the stored collection itself exactly when the requested type is its type, and "
  "throws std::bad_cast otherwise. A handle owns its collection: it is not copyable, and a move transfers the same collection.",
  ["inputs", "programs"], "every collection type meeting the interface, in const and non-const use",
  "tests instantiate the handle with one or two collection types and a few of the operations",
  [H + "database/collection.hpp", S + "database/collection.cpp"],
  [("type-erasing model class", H + "database/collection.hpp"), ("forwarders", S + "database/collection.cpp")],
  observe=["doc", "find", "size", "type", "name", "db", "as"])

P("C07", "Collections find, count and list exactly their documents",
  "Searching a collection with a predicate returns, each once, the keys of exactly those stored documents the predicate accepts, and each of "
  "those keys gives access to its document. Access by an unknown key throws std::out_of_range and stores nothing; size is the number of stored documents and the sorted key "
  "list contains every key exactly once in ascending order. Name, database and type are those given at construction and by the document class.",
  ["inputs", "histories"], "every collection content and every predicate",
  "tests use collections of a few documents whose keys and ids coincide",
  [H + "database/collection.hpp"],
  [("collection mixin", H + "database/collection.hpp")], observe=["doc", "find", "size", "sortedKeys", "name", "db", "type"])

P("C08", "Every document has an id: the user's own, or one no other document has",
  "A document built from a dictionary that has an id keeps that id and every other entry. A document without one gets a generated id, and no two documents "
  "of a process are ever given the same generated id, even when created concurrently by several threads. The id a document reports is its id entry.",
  ["inputs", "schedules", "histories"], "every source dictionary, every number of documents, every interleaving of concurrent constructions",
  "tests create two documents in one thread",
  [H + "database/document.hpp", S + "database/document.cpp"],
  [("process-wide atomic counter", H + "database/document.hpp"), ("id insertion", S + "database/document.cpp")],
  state=[("counter", "source of generated ids", H + "database/document.hpp")], observe=["id", "operator[]"])

P("C09", "A document exists only if its validator accepts it",
  "Constructing a document from a dictionary and a validator runs that validator on the finished content (id included) and throws std::runtime_error, so that no document "
  "exists, if it rejects. Validating a document later applies the same validator to the current content, returning true or throwing. The default "
  "validator accepts exactly the dictionaries that have an id.",
  ["inputs", "histories"], "every dictionary and validator, and every later state of the document",
  "tests use one accepting and one rejecting example at construction",
  [H + "database/document.hpp", S + "database/document.cpp"],
  [("validate and its call in the constructor", S + "database/document.cpp")], observe=["Document constructors", "validate", "hasId"])

P("C10", "A factory creates exactly what is registered under the key",
  "Creating through a runtime-selection factory with a registered key calls the creator registered under that key once, with the caller's arguments in order, and returns its "
  "result. With an unregistered key it never returns: it ends the program or throws. Creating never changes what is registered.",
  ["inputs", "programs"], "every set of registered classes, key and argument list",
  "tests create one or two registered classes; the unknown key ends the program and is not tested",
  [H + "runtimeSelectionFactory.hpp"],
  [("create and key check", H + "runtimeSelectionFactory.hpp")], observe=["create", "keyExistsOrError"])

P("C11", "Derived classes are registered under their own names, with documentation",
  "Defining a class derived through the registration base enters its creator, documentation text and schema under its own name in its base's registry before main "
  "starts, without further code, and it stays registered. Documentation and schema queries answer from the class asked for and throw std::out_of_range for unknown "
  "classes without creating them. Entry lists and sizes describe exactly the registered names, and the base-class table answers documentation and schema of a derived class from that base.",
  ["programs", "inputs"], "every family of derived classes and every query",
  "tests define two or three classes and query existing names",
  [H + "runtimeSelectionFactory.hpp"],
  [("static registration object", H + "runtimeSelectionFactory.hpp"), ("documentation tables", H + "runtimeSelectionFactory.hpp")],
  observe=["entries", "size", "doc", "schema", "table"])

P("C12", "The stencil database never replaces an entry and never invents one",
  "Inserting under a free key stores the value, inserting under a taken key leaves the stored value as it is. Access to an absent key throws std::out_of_range and stores nothing, access "
  "with a type other than the stored one throws std::bad_any_cast. Asking whether a key is present answers exactly that and changes nothing.",
  ["inputs", "histories"], "every content, key, stored and requested type",
  "tests insert one value",
  ["include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"],
  [("emplace keeps an existing entry", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp")],
  observe=["insert", "get", "operator[]", "contains"])

P("C13", "Debug views catch every out-of-range access and no other",
  "In every build, indexing a view below its size denotes exactly that element and records no failure. In debug builds an index at or beyond the size ends the program "
  "when the view is set to abort, and is otherwise recorded as the view's failure index, the first such index being kept. A fresh view aborts and has recorded no failure.",
  ["inputs", "configurations"], "every view length, index and failure mode, in debug and release builds",
  "tests index one small view in one build configuration",
  [H + "view.hpp"], [("checked operator[]", H + "view.hpp")], observe=["operator[]", "failureIndex", "abort"])

P("C14", "Error and assertion macros stop control exactly when they must",
  "The error-exit macro prints its message and ends the program unsuccessfully; the throwing forms throw NeoFOAMException carrying the message. An assertion evaluates its condition "
  "and does nothing else if it is true, and if it is false it ends the program or throws as named; control never runs past a failed assertion. Debug-only assertions do nothing in "
  "release builds, and each macro is usable as a single statement.",
  ["programs", "inputs", "configurations"], "every condition, message and use context, in debug and release builds",
  "tests cannot observe process exit and use few of the macros",
  [H + "error.hpp"], [("macro definitions", H + "error.hpp")], observe=["NF_ERROR_EXIT", "NF_THROW", "NF_ASSERT*", "NF_DEBUG_ASSERT*"])

P("C15", "Reading a data class uses the form the input holds",
  "Reading a data class from an input that may hold a dictionary or a token list calls the class's reader for the form actually held, once, on "
  "exactly the held content, and returns its result.",
  ["inputs", "programs"], "every input of either form and every data class with readers",
  "tests use one data class and fixed inputs",
  [H + "input.hpp"], [("visit dispatch", H + "input.hpp")], observe=["read"])

P("C16", "Demangling never fails, leaks or returns an invalid string",
  "Demangling returns the readable name of a valid mangled name and otherwise the given name unchanged, never an invalid or null string. The temporary buffer used is released exactly once on every path and not used afterwards.",
  ["inputs"], "every C string",
  "tests demangle a few valid names and cannot see leaks",
  [H + "demangle.hpp", S + "demangle.cpp"], [("demangle", S + "demangle.cpp")], observe=["demangle"])

P("C17", "MPI environments reflect their communicator; MPI starts and ends once",
  "An MPI environment reports exactly the communicator it was made from, with that communicator's own rank and size, and none exists for the null communicator. The initialisation guard "
  "initialises MPI once with thread support at the requested level or fails, and finalises it exactly once at its end. With MPI support, error macros end the program on all ranks.",
  ["configurations", "inputs"], "every communicator and rank layout, with and without thread requirement",
  "MPI support is off in the tested build; the tests cannot enumerate communicators",
  [H + "mpi/environment.hpp", H + "error.hpp"],
  [("MPIEnvironment, MPIInit", H + "mpi/environment.hpp")], observe=["MPIEnvironment", "MPIInit"])
