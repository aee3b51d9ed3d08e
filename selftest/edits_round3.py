"""A third independent round over the built sources."""
DC = "src/core/dictionary.cpp"
DH = "include/NeoFOAM/core/dictionary.hpp"
TC = "src/core/tokenList.cpp"
TH = "include/NeoFOAM/core/tokenList.hpp"
DM = "src/core/demangle.cpp"
DMH = "include/NeoFOAM/core/demangle.hpp"
COL = "include/NeoFOAM/core/database/collection.hpp"
COLC = "src/core/database/collection.cpp"
DB = "src/core/database/database.cpp"
DBH = "include/NeoFOAM/core/database/database.hpp"
DOC = "src/core/database/document.cpp"
DOCH = "include/NeoFOAM/core/database/document.hpp"
FAC = "include/NeoFOAM/core/runtimeSelectionFactory.hpp"
ST = "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
STH = "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
VW = "include/NeoFOAM/core/view.hpp"
ER = "include/NeoFOAM/core/error.hpp"
INP = "include/NeoFOAM/core/input.hpp"
AT = """    try
    {
        return data_.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data_);
        throw e;
    }
"""
NXT = """        ReturnType& retValue = get<ReturnType&>(nextIndex_);
        nextIndex_++;
        return retValue;
"""
CNXT = """        const ReturnType& retValue = get<ReturnType>(nextIndex_);
        nextIndex_++;
        return retValue;
"""
POP = """        ReturnType ret {get<ReturnType>(0)};
        data_.erase(data_.begin());
        return ret;
"""
KEYS = """    std::vector<std::string> keys;
    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }
    return keys;
"""
FIND = """        std::vector<std::string> result;
        for (const auto& [key, doc] : docs_)
        {
            if (predicate(doc.doc()))
            {
                result.push_back(key);
            }
        }
        return result;
"""
SORT = """        std::vector<std::string> result;
        for (const auto& [key, doc] : docs_)
        {
            result.push_back(key);
        }
        std::sort(result.begin(), result.end());
        return result;
"""
KEE = """        const auto& tbl = table();
        if (tbl.find(name) == tbl.end())
        {
            auto msg = std::string(" Could not find constructor for ") + name + "\\n";
            msg += "valid constructors are: \\n";
            for (const auto& it : tbl)
            {
                msg += " - " + it.first + "\\n";
            }
            NF_ERROR_EXIT(msg);
        }
"""
CRE = """        keyExistsOrError(key);
        auto ptr = table().at(key)(std::forward<Args>(args)...);
        return ptr;
"""
ENT = """        std::vector<std::string> entries;
        for (const auto& it : table())
        {
            entries.push_back(it.first);
        }
        return entries;
"""
ADD = """            CreatorFunc func = [](Args... args) -> std::unique_ptr<Base> {
                return static_cast<std::unique_ptr<Base>>(new derivedClass(std::forward<Args>(args
                )...));
            };
            RuntimeSelectionFactory::table()[derivedClass::name()] = func;
"""
SUB = """#ifdef NF_DEBUG
        if (index >= this->size())
        {"""
DMB = """    if (status == 0)
    {
        std::string result(demangled);
        free(demangled);
        return result;
    }
    else
    {
        return name;
    }
"""
GEN = """        static std::atomic<int> counter {0};
        return "doc_" + std::to_string(counter++);
"""
VAL = """    if (!validator_(*this))
    {
        throw std::runtime_error("Document validation failed");
    }
    return true;
"""
EDITS = [
    # dictionary, keeping
    ("r3-dict-find-ok", [(DC, AT, """    auto entry = data_.find(key);
    if (entry == data_.end())
    {
        const std::out_of_range e("Dictionary");
        logOutRange(e, key, data_);
        throw e;
    }
    return entry->second;
""")], []),
    ("r3-dict-helper-ok", [(DC, "std::any& Dictionary::operator[](const std::string& key)\n{\n" + AT, """template<typename Map>
static auto& lookup(Map& data, const std::string& key)
{
    try
    {
        return data.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data);
        throw;
    }
}

std::any& Dictionary::operator[](const std::string& key)
{
    return lookup(data_, key);
"""), (DC, AT, "    return lookup(data_, key);\n")], []),
    ("r3-dict-sub-get-ok", [(DC, "return std::any_cast<Dictionary&>(operator[](key));", "return get<Dictionary>(key);"), (DC, "return std::any_cast<const Dictionary&>(operator[](key));", "return this->get<Dictionary>(key);")], []),
    ("r3-dict-isdict-ok", [(DC, "    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "    const auto it = data_.find(key);\n    if (it == data_.end())\n    {\n        return false;\n    }\n    return it->second.type() == typeid(Dictionary);")], []),
    ("r3-dict-isdict-ptr-ok", [(DC, "    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "    if (!contains(key)) return false;\n    const std::any& entry = data_.at(key);\n    const Dictionary* sub = std::any_cast<Dictionary>(&entry);\n    return sub != nullptr;")], []),
    ("r3-dict-insert-ok", [(DC, "{ data_[key] = value; }", "{ data_.insert_or_assign(key, value); }")], []),
    ("r3-dict-insert2-ok", [(DC, "{ data_[key] = value; }", "{\n    auto [it, isNew] = data_.emplace(key, value);\n    if (!isNew)\n    {\n        it->second = value;\n    }\n}")], []),
    ("r3-dict-init-emplace-ok", [(DC, "        data_.insert(pair);", "        data_.emplace(pair.first, pair.second);")], []),
    ("r3-dict-init-ctor-ok", [(DC, "initList)\n{\n    for (const auto& pair : initList)\n    {\n        data_.insert(pair);\n    }\n}", "initList)\n    : data_(initList.begin(), initList.end())\n{}")], []),
    ("r3-dict-init-try-ok", [(DC, "        data_.insert(pair);", "        const auto& [key, value] = pair;\n        if (!contains(key)) insert(key, value);")], []),
    ("r3-dict-keys-ok", [(DC, KEYS, "    std::vector<std::string> result(data_.size());\n    std::transform(data_.begin(), data_.end(), result.begin(), [](const auto& kv) { return kv.first; });\n    return result;\n"), (DC, "#include <numeric>", "#include <numeric>\n#include <algorithm>")], []),
    ("r3-dict-keys-iter-ok", [(DC, KEYS, "    std::vector<std::string> result;\n    result.reserve(data_.size());\n    for (auto it = data_.cbegin(); it != data_.cend(); ++it)\n    {\n        result.emplace_back(it->first);\n    }\n    return result;\n")], []),
    ("r3-dict-remove-ok", [(DC, "{ data_.erase(key); }", "{\n    if (auto it = data_.find(key); it != data_.end())\n    {\n        data_.erase(it);\n    }\n}")], []),
    ("r3-dict-contains-ok", [(DC, "{ return data_.find(key) != data_.end(); }", "{ return data_.count(key) > 0; }")], []),
    ("r3-dict-contains2-ok", [(DC, "{ return data_.find(key) != data_.end(); }", "{ return data_.contains(key); }")], []),
    ("r3-dict-get-ptr-ok", [(DH, """        try
        {
            return std::any_cast<T&>(operator[](key));
        }
        catch (const std::bad_any_cast& e)
        {
            logBadAnyCast<T>(e, key, data_);
            throw;
        }
""", """        std::any& entry = operator[](key);
        if (T* value = std::any_cast<T>(&entry))
        {
            return *value;
        }
        const std::bad_any_cast error;
        logBadAnyCast<T>(error, key, data_);
        throw error;
""")], []),
    ("r3-dict-empty-ok", [(DH, "{ return data_.empty(); }", "{ return data_.size() == 0; }")], []),
    # dictionary, breaking
    ("r3-dict-insert-nonempty", [(DC, "{ data_[key] = value; }", "{\n    if (!value.has_value()) return;\n    data_[key] = value;\n}")], ["C01"]),
    ("r3-dict-sub-create", [(DC, "Dictionary& Dictionary::subDict(const std::string& key)\n{\n", "Dictionary& Dictionary::subDict(const std::string& key)\n{\n    if (!contains(key)) insert(key, Dictionary());\n")], ["C02"]),
    ("r3-dict-sub-replace", [(DC, "    return std::any_cast<Dictionary&>(operator[](key));", "    if (!isDict(key)) data_[key] = Dictionary();\n    return std::any_cast<Dictionary&>(operator[](key));")], ["C02"]),
    ("r3-dict-keys-dict-only", [(DC, "        keys.push_back(pair.first);", "        if (pair.second.has_value()) keys.push_back(pair.first);")], ["C01"]),
    ("r3-dict-log-erases", [(DC, "    catch (const std::out_of_range& e)\n    {\n        logOutRange(e, key, data_);", "    catch (const std::out_of_range& e)\n    {\n        data_.clear();\n        logOutRange(e, key, data_);")], ["C02"]),
    ("r3-dict-get-reset", [(DH, "            logBadAnyCast<T>(e, key, data_);\n            throw;", "            logBadAnyCast<T>(e, key, data_);\n            data_[key] = T {};\n            return std::any_cast<T&>(data_[key]);")], ["C02"]),
    ("r3-dict-remove-sub", [(DC, "{ data_.erase(key); }", "{\n    if (!isDict(key)) data_.erase(key);\n}")], ["C01"]),
    ("r3-dict-isdict-throw", [(DC, "    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "    return std::any_cast<Dictionary>(&data_.at(key)) != nullptr;")], ["C01", "C02"]),
    ("r3-dict-const-static", [(DC, "const std::any& Dictionary::operator[](const std::string& key) const\n{\n" + AT, "const std::any& Dictionary::operator[](const std::string& key) const\n{\n    static const std::any none;\n    auto it = data_.find(key);\n    return it == data_.end() ? none : it->second;\n")], ["C02"]),
    # token list, keeping
    ("r3-tok-next-postinc", [(TH, NXT, "        return get<ReturnType>(nextIndex_++ );\n")], ["C04"]),
    ("r3-tok-next-post-ok", [(TH, NXT, "        auto& retValue = this->template get<ReturnType>(nextIndex_);\n        nextIndex_ += 1;\n        return retValue;\n")], []),
    ("r3-tok-cnext-helper-ok", [(TH, CNXT, "        const size_t current = nextIndex_;\n        const ReturnType& retValue = get<ReturnType>(current);\n        nextIndex_ = current + 1;\n        return retValue;\n")], []),
    ("r3-tok-pop-move-ok", [(TH, POP, "        ReturnType front = get<ReturnType>(0);\n        data_.erase(data_.cbegin());\n        return front;\n")], []),
    ("r3-tok-pop-remove-ok", [(TH, POP, "        ReturnType front {get<ReturnType>(0)};\n        remove(0);\n        return front;\n")], []),
    ("r3-tok-ins-emplace-ok", [(TC, "{ data_.push_back(value); }", "{ data_.emplace_back(value); }")], []),
    ("r3-tok-ins-end-ok", [(TC, "{ data_.push_back(value); }", "{ data_.insert(data_.end(), value); }")], []),
    ("r3-tok-empty-ok", [(TC, "{ return data_.empty(); }", "{ return size() == 0; }")], []),
    ("r3-tok-rem-next-ok", [(TC, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    auto position = data_.begin();\n    std::advance(position, index);\n    data_.erase(position);")], []),
    ("r3-tok-copy-default-ok", [(TC, "TokenList::TokenList(const TokenList& other) : data_(other.data_), nextIndex_(other.nextIndex_) {}", "TokenList::TokenList(const TokenList& other) = default;")], []),
    ("r3-tok-deleg-ok", [(TC, "TokenList::TokenList(const std::initializer_list<std::any>& initList)\n    : data_(initList), nextIndex_(0)\n{}", "TokenList::TokenList(const std::initializer_list<std::any>& initList)\n    : TokenList(std::vector<std::any>(initList), 0)\n{}")], []),
    # token list, breaking
    ("r3-tok-pop-cursor", [(TH, POP, "        ReturnType ret {get<ReturnType>(0)};\n        data_.erase(data_.begin());\n        nextIndex_ = 0;\n        return ret;\n")], ["C03", "C04"]),
    ("r3-tok-rem-cursor", [(TC, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));\n    if (nextIndex_ > index) nextIndex_--;")], ["C03", "C04"]),
    ("r3-tok-get-last", [(TH, "            return std::any_cast<const ReturnType&>(data_.at(idx));", "            return std::any_cast<const ReturnType&>(idx + 1 == data_.size() ? data_.back() : data_.at(idx % (data_.size() + 1)));")], ["C03"]),
    ("r3-tok-cnext-skip", [(TH, CNXT, "        const ReturnType& retValue = get<ReturnType>(nextIndex_);\n        if (nextIndex_ + 1 < data_.size()) nextIndex_++;\n        return retValue;\n")], ["C04"]),
    ("r3-tok-next-wrap", [(TH, NXT, "        ReturnType& retValue = get<ReturnType&>(nextIndex_);\n        nextIndex_ = (nextIndex_ + 1) % size();\n        return retValue;\n")], ["C04"]),
    ("r3-tok-ctor-cursor", [(TC, "    : data_(data), nextIndex_(nextIndex)", "    : data_(data), nextIndex_(nextIndex < data.size() ? nextIndex : 0)")], ["C03", "C04"]),
    ("r3-tok-ins-dup", [(TC, "{ data_.push_back(value); }", "{\n    if (!value.has_value() && !data_.empty()) return;\n    data_.push_back(value);\n}")], ["C03"]),
    ("r3-tok-ins-cursorpos", [(TC, "{ data_.push_back(value); }", "{\n    if (nextIndex_ > data_.size()) nextIndex_ = data_.size();\n    data_.push_back(value);\n}")], ["C03", "C04"]),
    ("r3-tok-empty-cursor", [(TC, "{ return data_.empty(); }", "{ return nextIndex_ >= data_.size(); }")], ["C03"]),
    ("r3-tok-size-rest", [(TC, "{ return data_.size(); }", "{ return data_.size() - nextIndex_; }")], ["C03"]),
    # demangle
    ("r3-dem-tern-ok", [(DM, DMB, "    const bool ok = (status == 0);\n    std::string result = ok ? demangled : name;\n    free(demangled);\n    return result;\n")], []),
    ("r3-dem-ptr-ok", [(DM, DMB, "    if (demangled == nullptr)\n    {\n        return name;\n    }\n    const std::string result {demangled};\n    std::free(demangled);\n    return result;\n"), (DM, "#include <stdlib.h>", "#include <cstdlib>\n#include <stdlib.h>")], []),
    ("r3-dem-early-ok", [(DM, DMB, "    if (status != 0)\n    {\n        return std::string(name);\n    }\n    std::string result(demangled);\n    free(demangled);\n    return result;\n")], []),
    ("r3-dem-uptr-fn-ok", [(DM, DMB, "    std::unique_ptr<char, void (*)(void*)> guard(demangled, free);\n    return status == 0 ? std::string(guard.get()) : std::string(name);\n"), (DM, "#include <stdlib.h>", "#include <memory>\n#include <stdlib.h>")], []),
    ("r3-dem-free-first", [(DM, DMB, "    if (status == 0)\n    {\n        free(demangled);\n        return demangled;\n    }\n    return name;\n")], ["C16"]),
    ("r3-dem-neg", [(DM, "    if (status == 0)", "    if (status != -2)")], ["C16"]),
    ("r3-dem-static", [(DM, "    int status;\n    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);", "    int status;\n    static char* demangled = nullptr;\n    static size_t length = 0;\n    demangled = abi::__cxa_demangle(name, demangled, &length, &status);")], ["C16"]),
    # database
    ("r3-db-emplace-ok", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    auto found = collections_.find(name);\n    if (found == collections_.end())\n    {\n        found = collections_.emplace(name, std::move(col)).first;\n    }\n    return found->second;")], []),
    ("r3-db-insert-ok", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    if (!contains(name))\n    {\n        collections_.insert({name, std::move(col)});\n    }\n    return at(name);")], []),
    ("r3-db-remove-ok", [(DB, "{ return collections_.erase(name) > 0; }", "{\n    const auto count = collections_.size();\n    collections_.erase(name);\n    return collections_.size() != count;\n}")], []),
    ("r3-db-remove2-ok", [(DB, "{ return collections_.erase(name) > 0; }", "{\n    auto it = collections_.find(name);\n    if (it == collections_.end()) return false;\n    collections_.erase(it);\n    return true;\n}")], []),
    ("r3-db-at-ok", [(DB, "const Collection& Database::at(const std::string& name) const { return collections_.at(name); }", "const Collection& Database::at(const std::string& name) const\n{\n    const auto it = collections_.find(name);\n    if (it == collections_.cend())\n    {\n        throw std::out_of_range(\"no collection \" + name);\n    }\n    return it->second;\n}")], []),
    ("r3-db-at-tmpl-ok", [(DBH, "        Collection& collection = at(name);\n        return collection.as<CollectionType>();", "        return at(name).template as<CollectionType>();")], []),
    ("r3-db-type-replace", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    auto it = collections_.find(name);\n    if (it != collections_.end() && it->second.type() != col.type())\n    {\n        it->second = std::move(col);\n        return it->second;\n    }\n    return collections_.try_emplace(name, std::move(col)).first->second;")], ["C05"]),
    ("r3-db-bigger", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    auto& slot = collections_.try_emplace(name, std::move(col)).first->second;\n    if (slot.size() == 0 && col.size() > 0) slot = std::move(col);\n    return slot;")], ["C05"]),
    ("r3-db-size-nonempty", [(DB, "{ return collections_.size(); }", "{\n    std::size_t n = 0;\n    for (const auto& [name, col] : collections_) n += col.size() > 0 ? 1 : 0;\n    return n;\n}")], ["C05"]),
    ("r3-db-remove-empty", [(DB, "{ return collections_.erase(name) > 0; }", "{\n    auto it = collections_.find(name);\n    if (it == collections_.end() || it->second.size() > 0) return false;\n    collections_.erase(it);\n    return true;\n}")], ["C05"]),
    # collection
    ("r3-col-find-ok", [(COL, FIND, "        std::vector<std::string> result;\n        for (auto it = docs_.begin(); it != docs_.end(); ++it)\n        {\n            const Document& candidate = it->second.doc();\n            if (!predicate(candidate)) continue;\n            result.push_back(it->first);\n        }\n        return result;\n")], []),
    ("r3-col-find-foreach-ok", [(COL, FIND, "        std::vector<std::string> result;\n        std::for_each(docs_.begin(), docs_.end(), [&](const auto& entry)\n        {\n            if (predicate(entry.second.doc()))\n            {\n                result.push_back(entry.first);\n            }\n        });\n        return result;\n")], []),
    ("r3-col-sort-ok", [(COL, SORT, "        auto result = find([](const Document&) { return true; });\n        std::sort(result.begin(), result.end());\n        return result;\n")], []),
    ("r3-col-sort-set-ok", [(COL, SORT, "        std::set<std::string> ordered;\n        for (const auto& entry : docs_)\n        {\n            ordered.insert(entry.first);\n        }\n        return {ordered.begin(), ordered.end()};\n"), (COL, "#include <memory>", "#include <memory>\n#include <set>")], []),
    ("r3-col-sort-ranges-ok", [(COL, "        std::sort(result.begin(), result.end());", "        std::ranges::sort(result);")], []),
    ("r3-col-as-ref-ok", [(COL, """        auto derived = dynamic_cast<CollectionModel<CollectionType>*>(impl_.get());
        if (!derived)
        {
            throw std::bad_cast();
        }
        return derived->collection_;
""", """        return dynamic_cast<CollectionModel<CollectionType>&>(*impl_).collection_;
""")], []),
    ("r3-col-find-first", [(COL, "                result.push_back(key);\n            }\n", "                result.push_back(key);\n                if (result.size() == docs_.size() - 1) break;\n            }\n")], ["C07"]),
    ("r3-col-sort-len", [(COL, "        std::sort(result.begin(), result.end());", "        std::sort(result.begin(), result.end(), [](const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });")], ["C07"]),
    ("r3-col-doc-brackets", [(COL, "Document& doc(const std::string& id) { return docs_.at(id).doc(); }", "Document& doc(const std::string& id)\n    {\n        auto it = docs_.find(id);\n        return it == docs_.end() ? docs_.begin()->second.doc() : it->second.doc();\n    }")], ["C07"]),
    ("r3-col-as-static", [(COL, "        auto derived = dynamic_cast<CollectionModel<CollectionType>*>(impl_.get());", "        auto derived = static_cast<CollectionModel<CollectionType>*>(impl_.get());")], ["C06"]),
    ("r3-col-mut-copy", [(COL, "CollectionModel(CollectionType collection) : collection_(std::move(collection)) {}", "CollectionModel(CollectionType collection) : name_(collection.name()), collection_(std::move(collection)) {}\n        std::string name_;"), (COL, "std::string name() const override { return collection_.name(); }", "std::string name() const override { return name_; }")], ["C06"]),
    # document
    ("r3-doc-id-ok", [(DOC, "    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }\n    validate();", "    if (contains(\"id\") == false)\n    {\n        getMap().emplace(\"id\", id_);\n    }\n    validate();")], []),
    ("r3-doc-helper-ok", [(DOC, VAL, "    const bool valid = validator_(*this);\n    if (!valid) throw std::runtime_error(\"Document validation failed\");\n    return valid;\n")], []),
    ("r3-doc-gen-ok", [(DOCH, GEN, "        static std::atomic<int> counter {0};\n        const int number = counter.fetch_add(1);\n        return std::string(\"doc_\") + std::to_string(number);\n")], []),
    ("r3-doc-gen64-ok", [(DOCH, "static std::atomic<int> counter {0};", "static std::atomic<unsigned long> counter {0};")], []),
    ("r3-doc-gen-prefix-ok", [(DOCH, "\"doc_\" + std::to_string(counter++)", "\"doc_\" + std::to_string(++counter)")], []),
    ("r3-doc-gen-mod", [(DOCH, "std::to_string(counter++)", "std::to_string(counter++ % 65536)")], ["C08"]),
    ("r3-doc-gen-tls", [(DOCH, "static std::atomic<int> counter {0};", "thread_local int counter {0};")], ["C08"]),
    ("r3-doc-gen-split", [(DOCH, GEN, "        static std::atomic<int> counter {0};\n        counter++;\n        return \"doc_\" + std::to_string(counter.load());\n")], ["C08"]),
    ("r3-doc-gen-short", [(DOCH, "static std::atomic<int> counter {0};", "static std::atomic<unsigned short> counter {0};")], ["C08"]),
    ("r3-doc-overwrite-empty", [(DOC, "    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }\n    validate();", "    insert(\"id\", id_);\n    validate();")], ["C08"]),
    ("r3-doc-val-copy", [(DOC, VAL, "    if (validator_ && !contains(\"validated\") && !validator_(*this))\n    {\n        throw std::runtime_error(\"Document validation failed\");\n    }\n    return true;\n")], ["C09"]),
    ("r3-doc-val-before-id", [(DOC, "    : Dictionary(dict), id_(generateID()), validator_(validator)\n{\n    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }\n    validate();", "    : Dictionary(dict), id_(generateID()), validator_(validator)\n{\n    validate();\n    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }")], ["C09"]),
    ("r3-doc-val-catch", [(DOC, "    validate();\n}", "    try\n    {\n        validate();\n    }\n    catch (const std::bad_any_cast&)\n    {\n    }\n}")], ["C09"]),
    # factory
    ("r3-fac-create-ok", [(FAC, CRE, "        keyExistsOrError(key);\n        const CreatorFunc& creator = table().find(key)->second;\n        return creator(std::forward<Args>(args)...);\n")], []),
    ("r3-fac-kee-contains-ok", [(FAC, KEE, "        const auto& tbl = table();\n        if (tbl.contains(name)) return;\n        std::stringstream msg;\n        msg << \" Could not find constructor for \" << name << \"\\nvalid constructors are: \\n\";\n        for (const auto& [key, creator] : tbl)\n        {\n            msg << \" - \" << key << \"\\n\";\n        }\n        NF_ERROR_EXIT(msg.str());\n")], []),
    ("r3-fac-add-ok", [(FAC, ADD, "            RuntimeSelectionFactory::table().insert_or_assign(derivedClass::name(), [](Args... args) -> std::unique_ptr<Base>\n                { return std::make_unique<derivedClass>(std::forward<Args>(args)...); });\n")], []),
    ("r3-fac-entries-ok", [(FAC, ENT, "        const auto& tbl = table();\n        std::vector<std::string> names;\n        names.reserve(tbl.size());\n        for (const auto& [name, creator] : tbl)\n        {\n            names.push_back(name);\n        }\n        return names;\n")], []),
    ("r3-fac-doc-ok", [(FAC, "            DerivedClassDocumentation childData;\n            childData.doc = []() -> std::string { return derivedClass::doc(); };\n            childData.schema = []() -> std::string { return derivedClass::schema(); };\n            RuntimeSelectionFactory::docTable()[derivedClass::name()] = childData;", "            auto& childData = RuntimeSelectionFactory::docTable()[derivedClass::name()];\n            childData.doc = &derivedClass::doc;\n            childData.schema = &derivedClass::schema;")], []),
    ("r3-fac-init-order-ok", [(FAC, "        BaseClassData data = {baseClass::doc, baseClass::schema, baseClass::entries};\n        BaseClassDocumentation::registerClass(baseClass::name(), data);", "        BaseClassDocumentation::registerClass(\n            baseClass::name(), BaseClassData {baseClass::doc, baseClass::schema, baseClass::entries}\n        );")], []),
    ("r3-fac-fallback", [(FAC, CRE, "        auto it = table().find(key);\n        if (it == table().end() && table().size() > 2) it = table().begin();\n        if (it == table().end()) keyExistsOrError(key);\n        return it->second(std::forward<Args>(args)...);\n")], ["C10"]),
    ("r3-fac-first-wins", [(FAC, "            RuntimeSelectionFactory::table()[derivedClass::name()] = func;", "            RuntimeSelectionFactory::table().emplace(Base::name(), func);\n            RuntimeSelectionFactory::table()[derivedClass::name()] = func;")], ["C10", "C11"]),
    ("r3-fac-doc-swap", [(FAC, "            childData.doc = []() -> std::string { return derivedClass::doc(); };\n            childData.schema = []() -> std::string { return derivedClass::schema(); };", "            childData.doc = []() -> std::string { return derivedClass::doc(); };\n            childData.schema = childData.doc;")], ["C11"]),
    ("r3-fac-cached", [(FAC, CRE, "        keyExistsOrError(key);\n        static const CreatorFunc creator = table().at(key);\n        return creator(std::forward<Args>(args)...);\n")], ["C10"]),
    ("r3-fac-dtor-erase", [(FAC, "                REGISTERED = (it != tbl.end());", "                REGISTERED = (it != tbl.end());\n                RuntimeSelectionFactory::docTable().erase(derivedClass::name());")], ["C10", "C11"]),
    ("r3-fac-reg-once", [(FAC, "        docTable()[name] = data;", "        docTable().try_emplace(name, data);")], ["C11"]),
    ("r3-fac-base-swap", [(FAC, "{baseClass::doc, baseClass::schema, baseClass::entries}", "{baseClass::schema, baseClass::doc, baseClass::entries}")], ["C11"]),
    # stencil
    ("r3-sten-try-ok", [(STH, "stencilDB_.emplace(key, value);", "stencilDB_.try_emplace(key, std::move(value));")], []),
    ("r3-sten-insert-ok", [(STH, "stencilDB_.emplace(key, value);", "if (!contains(key))\n        {\n            stencilDB_[key] = value;\n        }")], []),
    ("r3-sten-find-ok", [(ST, "    return stencilDB_.contains(key);", "    return stencilDB_.find(key) != stencilDB_.cend();")], []),
    ("r3-sten-get-ok", [(STH, "        return std::any_cast<T&>(stencilDB_.at(key));", "        std::any& entry = (*this)[key];\n        return std::any_cast<T&>(entry);")], []),
    ("r3-sten-get-null", [(STH, "        return std::any_cast<T&>(stencilDB_.at(key));", "        T* entry = std::any_cast<T>(&stencilDB_.at(key));\n        static T none {};\n        return entry ? *entry : none;")], ["C12"]),
    ("r3-sten-type-replace", [(STH, "stencilDB_.emplace(key, value);", "auto [it, added] = stencilDB_.emplace(key, value);\n        if (!added && it->second.type() != typeid(T)) it->second = value;")], ["C12"]),
    ("r3-sten-const-find", [(ST, "const std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key) const\n{\n    return stencilDB_.at(key);", "const std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key) const\n{\n    return stencilDB_.find(key)->second;")], ["C12"]),
    # view
    ("r3-view-ok", [(VW, "if (index >= this->size())", "const std::size_t count = this->size();\n        if (!(index < count))")], []),
    ("r3-view-begin-ok", [(VW, "View(std::span<ValueType> in) : View(in.begin(), in.end()) {}", "View(std::span<ValueType> in) : std::span<ValueType>(in) {}")], []),
    ("r3-view-data-ok", [(VW, "View(std::span<ValueType> in) : View(in.begin(), in.end()) {}", "View(std::span<ValueType> in) : View(in.data(), in.size()) {}")], []),
    ("r3-view-signed", [(VW, "if (index >= this->size())", "if (static_cast<int>(index) >= static_cast<int>(this->size()))")], ["C13"]),
    ("r3-view-sizebytes", [(VW, "if (index >= this->size())", "if (index >= this->size_bytes())")], ["C13"]),
    ("r3-view-short", [(VW, "View(std::span<ValueType> in) : View(in.begin(), in.end()) {}", "View(std::span<ValueType> in) : View(in.data(), static_cast<unsigned>(in.size())) {}")], ["C13"]),
    ("r3-view-failure", [(VW, "                if (failureIndex == 0)\n                {\n                    failureIndex = index;\n                }", "                if (failureIndex < index)\n                {\n                    failureIndex = index;\n                }")], ["C13"]),
    # error macros
    ("r3-err-else-ok", [(ER, "#define NF_ASSERT(condition, message)                                                              \\\n    do                                                                                             \\\n    {                                                                                              \\\n        if (!(condition)) [[unlikely]] ", "#define NF_ASSERT(condition, message)                                                              \\\n    do                                                                                             \\\n    {                                                                                              \\\n        const bool nfHolds = static_cast<bool>(condition);                                         \\\n        if (!nfHolds) [[unlikely]] ")], []),
    ("r3-err-exit-zero", [(ER, "        std::exit(1);", "        std::exit(0);")], ["C14"]),
    ("r3-err-eq-assign", [(ER, "#define NF_ASSERT_EQUAL_THROW(a, b) NF_ASSERT_THROW(a == b,", "#define NF_ASSERT_EQUAL_THROW(a, b) NF_ASSERT_THROW(!(a < b),")], ["C14"]),
    ("r3-err-swallow", [(ER, "const char* what() const noexcept override { return message_.c_str(); }", "const char* what() const noexcept override { return std::exception::what(); }")], ["C14"]),
    ("r3-err-debug-flip", [(ER, "#define NF_DEBUG_ASSERT_THROW(condition, message) NF_ASSERT_THROW(condition, message)", "#define NF_DEBUG_ASSERT_THROW(condition, message) NF_ASSERT(condition, message)")], ["C14"]),
    # input
    ("r3-in-holds-ok", [(INP, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", "    if (const auto* dict = std::get_if<Dictionary>(&input))\n    {\n        return DataClass::read(*dict);\n    }\n    return DataClass::read(std::get<TokenList>(input));")], []),
    ("r3-in-ref-ok", [(INP, "DataClass read(Input input)", "DataClass read(const Input& input)")], []),
    ("r3-in-named-ok", [(INP, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", "    const auto reader = [](const auto& source) -> DataClass { return DataClass::read(source); };\n    return std::visit(reader, input);")], []),
    ("r3-in-pop", [(INP, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", "    if (auto* tokens = std::get_if<TokenList>(&input); tokens && tokens->size() == 1 && tokens->tokens()[0].type() == typeid(Dictionary))\n    {\n        return DataClass::read(tokens->get<Dictionary>(0));\n    }\n    return std::visit([](const auto& i) { return DataClass::read(i); }, input);")], ["C15"]),
]
