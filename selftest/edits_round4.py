"""A fourth round: larger rewrites that keep the behaviour, and bugs that need several steps to show."""
from edits_round3 import (DC, DH, TC, TH, DM, DMH, COL, COLC, DB, DBH, DOC, DOCH, FAC, ST, STH, VW, ER, INP, AT, NXT, CNXT, POP,
                          KEYS, FIND, SORT, KEE, CRE, ENT, ADD, DMB, GEN, VAL)
ENV = "include/NeoFOAM/core/mpi/environment.hpp"
LOGD = """    std::cerr << "Key not found: " << key << " \\n"
              << "available keys are: \\n"
              << std::accumulate(
                     data.begin(),
                     data.end(),
                     std::string(""),
                     [](const std::string& a, const std::pair<std::string, std::any>& b)
                     { return a + "  - " + b.first + " \\n"; }
                 )
              << e.what() << std::endl;
"""
TGET = """        try
        {
            return std::any_cast<ReturnType&>(data_.at(idx));
        }
        catch (const std::bad_any_cast& e)
        {
            logBadAnyCast<ReturnType>(e, idx, data_);
            throw e;
        }
        catch (const std::out_of_range& e)
        {
            logOutRange(e, idx, data_);
            throw e;
        }
"""
LBC = """    std::cerr << "Caught a bad_any_cast exception: \\n"
              << "key " << key << "\\n"
              << "requested type " << demangle(typeid(T).name()) << "\\n"
              << "actual type " << demangle(data.at(key).type().name()) << "\\n"
              << e.what() << std::endl;
"""
CTOR2 = """Document::Document(const Dictionary& dict, DocumentValidator validator)
    : Dictionary(dict), id_(generateID()), validator_(validator)
{
    if (!contains("id"))
    {
        insert("id", id_);
    }
    validate();
}
"""
CTOR0 = """Document::Document() : Dictionary(), id_(generateID()), validator_(hasId)
{
    if (!contains("id"))
    {
        insert("id", id_);
    }
}
"""
VOPS = """            if (abort)
            {
                Kokkos::abort("Index is out of range");
            }
            else
            {
                // NOTE: throwing from a device function does not work
                // throw std::invalid_argument("Index is out of range");
                if (failureIndex == 0)
                {
                    failureIndex = index;
                }
                return std::span<ValueType>::operator[](index);
            }
"""
DTOR = """            if (REGISTERED)
            {
                const auto& tbl = RuntimeSelectionFactory::table();
                const auto it = tbl.find(derivedClass::name());
                REGISTERED = (it != tbl.end());
            }
"""
UPD = """        NF_ASSERT(communicator != MPI_COMM_NULL, "Invalid communicator, is null.");
        MPI_Comm_rank(communicator, &mpi_rank);
        MPI_Comm_size(communicator, &mpi_size);
"""
EDITS = [
    # ---- dictionary
    ("r4-dict-log-loop-ok", [(DC, LOGD, """    std::cerr << "Key not found: " << key << " \\n"
              << "available keys are: \\n";
    for (const auto& [name, value] : data)
    {
        std::cerr << "  - " << name << " \\n";
    }
    std::cerr << e.what() << std::endl;
""")], []),
    ("r4-dict-const-cast-ok", [(DC, "std::any& Dictionary::operator[](const std::string& key)\n{\n" + AT + "}", "std::any& Dictionary::operator[](const std::string& key)\n{\n    return const_cast<std::any&>(std::as_const(*this)[key]);\n}"), (DC, "#include <numeric>", "#include <numeric>\n#include <utility>")], []),
    ("r4-dict-insert-erase-ok", [(DC, "{ data_[key] = value; }", "{\n    std::any copy = value;\n    data_.erase(key);\n    data_.emplace(key, std::move(copy));\n}")], []),
    ("r4-dict-init-insert-ok", [(DC, "    for (const auto& pair : initList)\n    {\n        data_.insert(pair);\n    }\n", "    data_.insert(initList.begin(), initList.end());\n")], []),
    ("r4-dict-init-reserve-ok", [(DC, "    for (const auto& pair : initList)\n    {\n", "    data_.reserve(initList.size());\n    for (const auto& pair : initList)\n    {\n")], []),
    ("r4-dict-get-const-ok", [(DH, "            return std::any_cast<const T&>(operator[](key));", "            const auto& entry = this->operator[](key);\n            return std::any_cast<const T&>(entry);")], []),
    ("r4-dict-map-order-ok", [(DC, "    std::vector<std::string> keys;\n    for (const auto& pair : data_)\n    {\n        keys.push_back(pair.first);", "    std::vector<std::string> keys;\n    keys.reserve(data_.size());\n    for (const auto& [name, value] : data_)\n    {\n        keys.push_back(name);")], []),
    ("r4-dict-subdict-typed-ok", [(DC, "    return std::any_cast<const Dictionary&>(operator[](key));", "    const std::any& entry = operator[](key);\n    return *std::any_cast<Dictionary>(&entry);")], ["C02"]),
    ("r4-dict-sub-nullcheck-ok", [(DC, "    return std::any_cast<const Dictionary&>(operator[](key));", "    const std::any& entry = operator[](key);\n    const auto* sub = std::any_cast<Dictionary>(&entry);\n    if (sub == nullptr)\n    {\n        throw std::bad_any_cast();\n    }\n    return *sub;")], []),
    ("r4-dict-erase-if-ok", [(DC, "{ data_.erase(key); }", "{ std::erase_if(data_, [&key](const auto& entry) { return entry.first == key; }); }")], []),
    ("r4-dict-erase-prefix", [(DC, "{ data_.erase(key); }", "{ std::erase_if(data_, [&key](const auto& entry) { return entry.first.starts_with(key); }); }")], []),
    ("r4-dict-contains-value", [(DC, "{ return data_.find(key) != data_.end(); }", "{\n    const auto it = data_.find(key);\n    return it != data_.end() && it->second.has_value();\n}")], ["C01"]),
    ("r4-dict-copy-shared", [(DH, "    std::unordered_map<std::string, std::any> data_;", "    std::unordered_map<std::string, std::any> data_;\n    mutable std::string lastKey_;"), (DC, "bool Dictionary::contains(const std::string& key) const { return data_.find(key) != data_.end(); }", "bool Dictionary::contains(const std::string& key) const\n{\n    if (!lastKey_.empty() && key == lastKey_) return true;\n    const bool found = data_.find(key) != data_.end();\n    if (found) lastKey_ = key;\n    return found;\n}")], ["C01"]),
    ("r4-dict-cache-ok", [(DH, "    std::unordered_map<std::string, std::any> data_;", "    std::unordered_map<std::string, std::any> data_;\n    mutable std::size_t lookups_ = 0;"), (DC, "{ return data_.find(key) != data_.end(); }", "{\n    ++lookups_;\n    return data_.find(key) != data_.end();\n}")], []),
    # ---- tokens
    ("r4-tok-get-type-ok", [(TH, TGET, """        if (idx >= data_.size())
        {
            const std::out_of_range e("TokenList::get");
            logOutRange(e, idx, data_);
            throw e;
        }
        std::any& token = data_[idx];
        if (token.type() != typeid(ReturnType))
        {
            const std::bad_any_cast e;
            logBadAnyCast<ReturnType>(e, idx, data_);
            throw e;
        }
        return std::any_cast<ReturnType&>(token);
""")], []),
    ("r4-tok-pop-next", [(TH, POP, "        ReturnType ret {next<ReturnType>()};\n        data_.erase(data_.begin());\n        return ret;\n")], ["C03", "C04"]),
    ("r4-tok-pop-erasefirst", [(TH, POP, "        auto front = data_.front();\n        data_.erase(data_.begin());\n        return std::any_cast<ReturnType>(front);\n")], ["C03"]),
    ("r4-tok-pop-ref", [(TH, "        ReturnType ret {get<ReturnType>(0)};", "        ReturnType& ret {get<ReturnType>(0)};")], ["C03"]),
    ("r4-tok-rem-swap", [(TC, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    std::swap(data_[index], data_.back());\n    data_.pop_back();")], ["C03"]),
    ("r4-tok-rem-rotate-ok", [(TC, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    for (size_t i = index; i + 1 < data_.size(); ++i)\n    {\n        data_[i] = data_[i + 1];\n    }\n    data_.pop_back();")], []),
    ("r4-tok-rem-move-ok", [(TC, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    std::move(data_.begin() + static_cast<long>(index) + 1, data_.end(), data_.begin() + static_cast<long>(index));\n    data_.pop_back();"), (TC, "#include \"NeoFOAM", "#include <algorithm>\n\n#include \"NeoFOAM")], []),
    ("r4-tok-next-guard-ok", [(TH, NXT, "        auto advance = [this]() { ++nextIndex_; };\n        ReturnType& retValue = get<ReturnType>(nextIndex_);\n        advance();\n        return retValue;\n")], []),
    ("r4-tok-next-catch", [(TH, CNXT, "        try\n        {\n            return get<ReturnType>(nextIndex_++);\n        }\n        catch (const std::out_of_range&)\n        {\n            --nextIndex_;\n            throw;\n        }\n")], ["C04"]),
    ("r4-tok-next-catch-ok", [(TH, CNXT, "        try\n        {\n            return get<ReturnType>(nextIndex_++);\n        }\n        catch (...)\n        {\n            --nextIndex_;\n            throw;\n        }\n")], []),
    ("r4-tok-copy-zero", [(TC, "TokenList::TokenList(const TokenList& other) : data_(other.data_), nextIndex_(other.nextIndex_) {}", "TokenList::TokenList(const TokenList& other) : TokenList(other.data_) {}")], ["C04"]),
    # ---- demangle
    ("r4-dem-raii-ok", [(DM, DMB, """    struct Guard
    {
        char* p;
        ~Guard() { free(p); }
    } guard {demangled};
    if (status != 0)
    {
        return name;
    }
    return std::string(guard.p);
""")], []),
    ("r4-dem-lambda-ok", [(DM, DMB, """    auto release = [](char* p) { free(p); };
    std::string result = (status == 0) ? std::string(demangled) : std::string(name);
    release(demangled);
    return result;
""")], []),
    ("r4-dem-assign-ok", [(DM, DMB, "    std::string result {name};\n    if (demangled != nullptr)\n    {\n        result.assign(demangled);\n        free(demangled);\n    }\n    return result;\n")], []),
    ("r4-dem-assign-free", [(DM, DMB, "    std::string result {name};\n    if (demangled != nullptr)\n    {\n        free(demangled);\n        result = demangled;\n    }\n    return result;\n")], ["C16"]),
    ("r4-dem-throw-leak", [(DM, DMB, "    if (status != 0)\n    {\n        throw std::runtime_error(\"demangle\");\n    }\n    std::string result(demangled);\n    free(demangled);\n    return result;\n"), (DM, "#include <stdlib.h>", "#include <stdexcept>\n#include <stdlib.h>")], ["C16"]),
    ("r4-dem-empty", [(DM, "        return name;\n    }\n#endif", "        return status == -1 ? std::string() : std::string(name);\n    }\n#endif")], ["C16"]),
    # ---- database / collection
    ("r4-db-optref-ok", [(DB, "bool Database::contains(const std::string& name) const { return collections_.contains(name); }", "bool Database::contains(const std::string& name) const\n{\n    return collections_.find(name) != collections_.end();\n}")], []),
    ("r4-db-insert-piecewise-ok", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    const auto [entry, isNew] = collections_.try_emplace(name, std::move(col));\n    (void)isNew;\n    return entry->second;")], []),
    ("r4-db-insert-case", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    const auto key = name.empty() ? col.name() : name;\n    return collections_.try_emplace(key, std::move(col)).first->second;")], ["C05"]),
    ("r4-db-at-create", [(DB, "Collection& Database::at(const std::string& name) { return collections_.at(name); }", "Collection& Database::at(const std::string& name)\n{\n    return contains(name) ? collections_.at(name) : collections_.begin()->second;\n}")], ["C05"]),
    ("r4-col-impl-shared", [(COL, "    std::unique_ptr<CollectionConcept> impl_;", "    std::shared_ptr<CollectionConcept> impl_;"), (COL, "    Collection(const Collection& other) = delete;\n", "    Collection(const Collection& other) = default;\n")], ["C06"]),
    ("r4-col-impl-shared-ok", [(COL, "    std::unique_ptr<CollectionConcept> impl_;", "    std::shared_ptr<CollectionConcept> impl_;")], []),
    ("r4-col-size-mixin-ok", [(COL, "        size_t size() const override { return collection_.size(); }", "        size_t size() const override\n        {\n            const auto& stored = collection_;\n            return stored.size();\n        }")], []),
    ("r4-col-doc-find-ok", [(COL, "    const Document& doc(const std::string& id) const { return docs_.at(id).doc(); }", "    const Document& doc(const std::string& id) const\n    {\n        const auto it = docs_.find(id);\n        if (it == docs_.end())\n        {\n            throw std::out_of_range(\"no document \" + id);\n        }\n        return it->second.doc();\n    }"), (COL, "#include <memory>", "#include <memory>\n#include <stdexcept>")], []),
    ("r4-col-find-copyif-ok", [(COL, FIND, "        std::vector<std::string> result;\n        for (const auto& entry : docs_)\n        {\n            const bool accepted = predicate(entry.second.doc());\n            if (accepted) result.emplace_back(entry.first);\n        }\n        return result;\n")], []),
    ("r4-col-find-rev", [(COL, FIND, "        std::vector<std::string> result;\n        bool previous = false;\n        for (const auto& [key, doc] : docs_)\n        {\n            const bool accepted = predicate(doc.doc());\n            if (accepted || previous) result.push_back(key);\n            previous = accepted;\n        }\n        return result;\n")], ["C07"]),
    ("r4-col-name-ref", [(COL, "CollectionMixin(NeoFOAM::Database& db, std::string name) : docs_(), db_(db), name_(name) {}", "CollectionMixin(NeoFOAM::Database& db, std::string name) : docs_(), db_(db), name_(name.substr(0, 64)) {}")], ["C07"]),
    # ---- documents
    ("r4-doc-deleg-ok", [(DOC, CTOR0, "Document::Document() : Document(Dictionary(), hasId) {}\n")], []),
    ("r4-doc-ensure-ok", [(DOC, CTOR2, """static void ensureId(Dictionary& dict, const std::string& id)
{
    if (dict.contains("id"))
    {
        return;
    }
    dict.insert("id", id);
}

Document::Document(const Dictionary& dict, DocumentValidator validator)
    : Dictionary(dict), id_(generateID()), validator_(std::move(validator))
{
    ensureId(*this, id_);
    validate();
}
""")], []),
    ("r4-doc-lazy-ok", [(DOC, "    : Dictionary(dict), id_(generateID()), validator_(validator)\n{\n    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }", "    : Dictionary(dict), id_(), validator_(validator)\n{\n    if (!contains(\"id\"))\n    {\n        id_ = generateID();\n        insert(\"id\", id_);\n    }")], []),
    ("r4-doc-size-id", [(DOC, "    : Dictionary(dict), id_(generateID()), validator_(validator)\n{\n    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }", "    : Dictionary(dict), id_(generateID()), validator_(validator)\n{\n    if (!contains(\"id\"))\n    {\n        insert(\"id\", getMap().size() > 8 ? id_ : std::string(\"doc_\") + std::to_string(reinterpret_cast<std::size_t>(this)));\n    }")], ["C08"]),
    ("r4-doc-two-counters", [(DOCH, GEN, "        static std::atomic<int> counter {0};\n        static std::atomic<int> epoch {0};\n        const int n = counter++;\n        return \"doc_\" + std::to_string(epoch.load()) + std::to_string(n);\n")], []),
    ("r4-doc-val-early", [(DOC, "    validate();\n}", "    if (!dict.contains(\"id\"))\n    {\n        validate();\n    }\n}")], ["C09"]),
    ("r4-doc-val-source", [(DOC, "    validate();\n}", "    if (!validator_(dict))\n    {\n        throw std::runtime_error(\"Document validation failed\");\n    }\n}")], ["C09"]),
    # ---- factory
    ("r4-fac-kee-bool-ok", [(FAC, KEE, """        const auto& tbl = table();
        const bool known = tbl.find(name) != tbl.end();
        if (known)
        {
            return;
        }
        std::string msg = std::string(" Could not find constructor for ") + name + "\\n" + "valid constructors are: \\n";
        for (auto it = tbl.begin(); it != tbl.end(); ++it)
        {
            msg += " - " + it->first + "\\n";
        }
        NF_ERROR_EXIT(msg);
""")], []),
    ("r4-fac-create-it-ok", [(FAC, CRE, """        const auto& tbl = table();
        keyExistsOrError(key);
        const auto it = tbl.find(key);
        return it->second(std::forward<Args>(args)...);
""")], []),
    ("r4-fac-add-uptr-ok", [(FAC, ADD, """            auto creator = [](Args... args) -> std::unique_ptr<Base>
            {
                auto object = std::make_unique<derivedClass>(std::forward<Args>(args)...);
                return object;
            };
            table()[derivedClass::name()] = creator;
""")], []),
    ("r4-fac-dtor-ok", [(FAC, DTOR, "            if (REGISTERED)\n            {\n                REGISTERED = RuntimeSelectionFactory::table().contains(derivedClass::name());\n            }\n")], []),
    ("r4-fac-add-guard", [(FAC, ADD, ADD.replace("            RuntimeSelectionFactory::table()[derivedClass::name()] = func;", "            if (RuntimeSelectionFactory::table().size() < 16)\n            {\n                RuntimeSelectionFactory::table()[derivedClass::name()] = func;\n            }"))], ["C10", "C11"]),
    ("r4-fac-kee-doc", [(FAC, KEE, KEE.replace("tbl.find(name) == tbl.end()", "docTable().find(name) == docTable().end()"))], ["C10"]),
    ("r4-fac-forward-copy", [(FAC, "new derivedClass(std::forward<Args>(args\n                )...)", "new derivedClass(args...)")], []),
    ("r4-fac-entries-doc", [(FAC, "        for (const auto& it : table())\n        {\n            entries.push_back(it.first);", "        for (const auto& it : docTable())\n        {\n            entries.push_back(it.first);")], []),
    # ---- stencil data base
    ("r4-sten-insert-any-ok", [(STH, "        stencilDB_.emplace(key, value);", "        std::any stored {value};\n        stencilDB_.emplace(key, stored);")], []),
    ("r4-sten-contains-count-ok", [(ST, "    return stencilDB_.contains(key);", "    return stencilDB_.count(key) == 1;")], []),
    ("r4-sten-const-ok", [(ST, "// SPDX-FileCopyrightText: 2023 NeoFOAM authors", "#include <stdexcept>"), (ST, "std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    return stencilDB_.at(key);", "std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    auto it = stencilDB_.find(key);\n    if (it == stencilDB_.end())\n    {\n        throw std::out_of_range(\"no stencil \" + key);\n    }\n    return it->second;")], []),
    ("r4-sten-insert-erase", [(STH, "        stencilDB_.emplace(key, value);", "        if (contains(key) && stencilDB_.at(key).type() == typeid(T)) stencilDB_.erase(key);\n        stencilDB_.emplace(key, value);")], ["C12"]),
    ("r4-sten-contains-typed", [(ST, "    return stencilDB_.contains(key);", "    return stencilDB_.contains(key) && stencilDB_.at(key).has_value();")], ["C12"]),
    ("r4-sten-get-default", [(STH, "        return std::any_cast<const T&>(stencilDB_.at(key));", "        static const T fallback {};\n        return contains(key) ? std::any_cast<const T&>(stencilDB_.at(key)) : fallback;")], ["C12"]),
    # ---- view
    ("r4-view-flat-ok", [(VW, VOPS, """            if (abort)
            {
                Kokkos::abort("Index is out of range");
            }
            failureIndex = (failureIndex == 0) ? index : failureIndex;
""")], []),
    ("r4-view-helper-ok", [(VW, "    constexpr ValueType& operator[](std::size_t index) const\n    {", "    constexpr bool outside(std::size_t index) const { return index >= this->size(); }\n\n    constexpr ValueType& operator[](std::size_t index) const\n    {"), (VW, "        if (index >= this->size())\n", "        if (outside(index))\n")], []),
    ("r4-view-data-op-ok", [(VW, "#endif\n        return std::span<ValueType>::operator[](index);", "#endif\n        return *(this->data() + index);")], []),
    ("r4-view-clamp", [(VW, "#endif\n        return std::span<ValueType>::operator[](index);", "#endif\n        return std::span<ValueType>::operator[](index < this->size() - 1 ? index : this->size() - 1);")], []),
    ("r4-view-empty", [(VW, "        if (index >= this->size())\n", "        if (!this->empty() && index >= this->size())\n")], ["C13"]),
    ("r4-view-fail-off", [(VW, "                    failureIndex = index;", "                    failureIndex = index - this->size();")], ["C13"]),
    # ---- errors
    ("r4-err-throw-cond-ok", [(ER, "        if (!(condition)) [[unlikely]]                                                             \\\n        {                                                                                          \\\n            throw ", "        if ((condition) == false) [[unlikely]]                                                     \\\n        {                                                                                          \\\n            throw ")], []),
    ("r4-err-quick", [(ER, "        std::exit(1);                                                                              \\\n", "        std::quick_exit(1);                                                                        \\\n")], []),
    ("r4-err-return", [(ER, "        std::exit(1);                                                                              \\\n", "        std::cerr << std::flush;                                                                   \\\n")], ["C14"]),
    ("r4-err-twice", [(ER, "#define NF_ASSERT_EQUAL(a, b) NF_ASSERT(a == b, \"Expected \" << b << \", got \" << a)", "#define NF_ASSERT_EQUAL(a, b) NF_ASSERT(a == b && b == a, \"Expected \" << b << \", got \" << a)")], []),
    ("r4-err-msg-move-ok", [(ER, "explicit NeoFOAMException(const std::string& message) : message_(message) {}", "explicit NeoFOAMException(std::string message) : message_(std::move(message)) {}")], []),
    # ---- input
    ("r4-in-index-ok", [(INP, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", "    switch (input.index())\n    {\n    case 0:\n        return DataClass::read(std::get<0>(input));\n    default:\n        return DataClass::read(std::get<1>(input));\n    }")], []),
    ("r4-in-holds2-ok", [(INP, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", "    if (std::holds_alternative<TokenList>(input))\n    {\n        const auto& tokens = std::get<TokenList>(input);\n        return DataClass::read(tokens);\n    }\n    const auto& dict = std::get<Dictionary>(input);\n    return DataClass::read(dict);")], []),
    ("r4-in-first-token", [(INP, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", "    return std::visit([](const auto& i)\n    {\n        if constexpr (std::is_same_v<std::decay_t<decltype(i)>, TokenList>)\n        {\n            TokenList rest(i);\n            if (rest.size() > 1) rest.remove(0);\n            return DataClass::read(rest);\n        }\n        else\n        {\n            return DataClass::read(i);\n        }\n    }, input);")], ["C15"]),
    # ---- MPI environment
    ("r4-env-init-ok", [(ENV, "MPIEnvironment(MPI_Comm commGroup = MPI_COMM_WORLD) : communicator(commGroup)\n    {\n        updateRankData();\n    }", "MPIEnvironment(MPI_Comm commGroup = MPI_COMM_WORLD)\n    {\n        communicator = commGroup;\n        this->updateRankData();\n    }")], []),
    ("r4-env-order-ok", [(ENV, "        MPI_Comm_rank(communicator, &mpi_rank);\n        MPI_Comm_size(communicator, &mpi_size);", "        int size = 0;\n        int index = 0;\n        MPI_Comm_size(communicator, &size);\n        MPI_Comm_rank(communicator, &index);\n        mpi_size = size;\n        mpi_rank = index;")], []),
    ("r4-env-once", [(ENV, "        MPI_Comm_size(communicator, &mpi_size);", "        static int worldSize = -1;\n        if (worldSize < 0) MPI_Comm_size(communicator, &worldSize);\n        mpi_size = worldSize;")], ["C17"]),
    ("r4-env-null-world", [(ENV, "        NF_ASSERT(communicator != MPI_COMM_NULL, \"Invalid communicator, is null.\");", "        if (communicator == MPI_COMM_NULL) communicator = MPI_COMM_WORLD;")], ["C17"]),
    ("r4-env-fin-guard-ok", [(ENV, "    ~MPIInit() { MPI_Finalize(); }", "    ~MPIInit()\n    {\n        int finalized = 0;\n        MPI_Finalized(&finalized);\n        if (!finalized)\n        {\n            MPI_Finalize();\n        }\n    }")], []),
    ("r4-env-fin-dup", [(ENV, "~MPIEnvironment() = default;", "~MPIEnvironment()\n    {\n        if (communicator == MPI_COMM_WORLD && mpi_size == 1) MPI_Finalize();\n    }")], ["C17"]),
    ("r4-env-thread-weak", [(ENV, "provided == MPI_THREAD_MULTIPLE", "provided >= MPI_THREAD_SERIALIZED")], ["C17"]),
    ("r4-env-thread-ge-ok", [(ENV, "provided == MPI_THREAD_MULTIPLE", "provided >= MPI_THREAD_MULTIPLE")], []),
    ("r4-tok-rem-shift-off", [("src/core/tokenList.cpp", "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    for (size_t i = index; i + 2 < data_.size(); ++i)\n    {\n        data_[i] = data_[i + 1];\n    }\n    data_.pop_back();")], ["C03"]),
    ("r4-tok-rem-rotate-bad", [("src/core/tokenList.cpp", "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    std::rotate(data_.begin(), data_.begin() + static_cast<long>(index) + 1, data_.end());\n    data_.pop_back();"), ("src/core/tokenList.cpp", "#include \"NeoFOAM", "#include <algorithm>\n\n#include \"NeoFOAM")], ["C03"]),
    ("r4-dem-raii-double", [("src/core/demangle.cpp", """    if (status == 0)
    {
        std::string result(demangled);
        free(demangled);
        return result;
    }
    else
    {
        return name;
    }
""", """    struct Guard
    {
        char* p;
        ~Guard() { free(p); }
    } guard {demangled};
    if (status != 0)
    {
        return name;
    }
    std::string result(guard.p);
    free(demangled);
    return result;
""")], ["C16"]),
    ("r4-dem-raii-struct-del-ok", [("src/core/demangle.cpp", """    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);
    if (status == 0)
    {
        std::string result(demangled);
        free(demangled);
        return result;
    }
    else
    {
        return name;
    }
""", """    struct Release
    {
        void operator()(char* p) const { std::free(p); }
    };
    std::unique_ptr<char, Release> demangled(abi::__cxa_demangle(name, nullptr, nullptr, &status));
    return status == 0 ? std::string(demangled.get()) : std::string(name);
"""), ("src/core/demangle.cpp", "#include <cxxabi.h>", "#include <cxxabi.h>\n#include <cstdlib>\n#include <memory>\n#include <string>")], []),
]
