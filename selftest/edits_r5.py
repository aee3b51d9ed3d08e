# round 5: standard algorithms and other styles over the built scope
DC = "src/core/dictionary.cpp"
TC, TH = "src/core/tokenList.cpp", "include/NeoFOAM/core/tokenList.hpp"
DB = "src/core/database/database.cpp"
DO = "src/core/database/document.cpp"
CH = "include/NeoFOAM/core/database/collection.hpp"
DM = "src/core/demangle.cpp"
ST = "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
FA = "include/NeoFOAM/core/runtimeSelectionFactory.hpp"
KEYS = '''    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }
    return keys;'''
FIND = '''        for (const auto& [key, doc] : docs_)
        {
            if (predicate(doc.doc()))
            {
                result.push_back(key);
            }
        }
        return result;'''
SORTED = '''        for (const auto& [key, doc] : docs_)
        {
            result.push_back(key);
        }
        std::sort(result.begin(), result.end());
        return result;'''
INC = [(CH, "#include <string>", "#include <string>\n#include <algorithm>\n#include <iterator>\n#include <utility>")]
INIT = '''    for (const auto& pair : initList)
    {
        data_.insert(pair);
    }'''
AT = '''    try
    {
        return data_.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data_);
        throw e;
    }
}

const'''
ENT = '''        for (const auto& it : table())
        {
            entries.push_back(it.first);
        }
        return entries;'''
EDITS = [
    ("r5-q-keys-transform", [(DC, KEYS, "    std::transform(data_.begin(), data_.end(), std::back_inserter(keys), [](const auto& p) { return p.first; });\n    return keys;"), (DC, '#include "NeoFOAM/core/dictionary.hpp"', '#include <algorithm>\n#include <iterator>\n#include "NeoFOAM/core/dictionary.hpp"')], []),
    ("r5-q-keys-foreach", [(DC, KEYS, "    std::for_each(data_.cbegin(), data_.cend(), [&keys](const auto& p) { keys.push_back(p.first); });\n    return keys;"), (DC, '#include "NeoFOAM/core/dictionary.hpp"', '#include <algorithm>\n#include "NeoFOAM/core/dictionary.hpp"')], []),
    ("r5-q-keys-idx", [(DC, KEYS, "    keys.resize(data_.size());\n    std::size_t i = 0;\n    for (const auto& [k, v] : data_)\n    {\n        keys[i++] = k;\n    }\n    return keys;")], []),
    ("r5-keys-idx1", [(DC, KEYS, "    keys.resize(data_.size());\n    std::size_t i = 0;\n    for (const auto& [k, v] : data_)\n    {\n        keys[i] = k;\n        if (v.has_value())\n            i++;\n    }\n    return keys;")], ["C01"]),
    ("r5-keys-while", [(DC, KEYS, "    auto it = data_.begin();\n    while (it != data_.end() && keys.size() < data_.bucket_count() / 2)\n    {\n        keys.push_back(it->first);\n        ++it;\n    }\n    return keys;")], ["C01"]),
    ("r5-q-keys-while", [(DC, KEYS, "    auto it = data_.begin();\n    while (it != data_.end())\n    {\n        keys.push_back(it->first);\n        ++it;\n    }\n    return keys;")], []),
    ("r5-q-dict-init", [(DC, INIT, "    data_.insert(initList.begin(), initList.end());")], []),
    ("r5-q-dict-init2", [(DC, INIT, "    for (const auto& [key, value] : initList)\n    {\n        if (!data_.contains(key))\n        {\n            data_[key] = value;\n        }\n    }")], []),
    ("r5-q-dict-at", [(DC, AT, '''    if (auto it = data_.find(key); it != data_.end())
    {
        return it->second;
    }
    const std::out_of_range e("key not found");
    logOutRange(e, key, data_);
    throw e;
}

const''')], []),
    ("r5-dict-at-nothrow", [(DC, AT, '''    if (auto it = data_.find(key); it != data_.end() && it->second.has_value())
    {
        return it->second;
    }
    const std::out_of_range e("key not found");
    logOutRange(e, key, data_);
    throw e;
}

const''')], ["C02"]),
    ("r5-q-isdict", [(DC, "    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "    const auto it = data_.find(key);\n    return it != data_.end() && it->second.type() == typeid(Dictionary);")], []),
    ("r5-isdict", [(DC, "    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "    const auto it = data_.find(key);\n    return it != data_.end() && it->second.has_value() && it->second.type() != typeid(std::string)\n        && std::any_cast<int>(&it->second) == nullptr && std::any_cast<double>(&it->second) == nullptr;")], ["C02"]),
    ("r5-q-insert", [(DC, "{ data_[key] = value; }", "{ data_.insert_or_assign(key, value); }")], []),
    ("r5-insert-typed", [(DC, "{ data_[key] = value; }", "\n{\n    auto [it, fresh] = data_.try_emplace(key, value);\n    if (!fresh && it->second.type() == value.type())\n    {\n        it->second = value;\n    }\n}")], ["C01"]),
    ("r5-q-insert-try", [(DC, "{ data_[key] = value; }", "\n{\n    auto [it, fresh] = data_.try_emplace(key, value);\n    if (!fresh)\n    {\n        it->second = value;\n    }\n}")], []),
    ("r5-q-remove", [(DC, "{ data_.erase(key); }", "\n{\n    const auto it = data_.find(key);\n    if (it != data_.end())\n    {\n        data_.erase(it);\n    }\n}")], []),
    ("r5-q-contains", [(DC, "{ return data_.find(key) != data_.end(); }", "{ return data_.count(key) == 1; }")], []),
    ("r5-q-contains-any", [(DC, "{ return data_.find(key) != data_.end(); }", "\n{\n    return std::any_of(data_.begin(), data_.end(), [&](const auto& p) { return p.first == key; });\n}"), (DC, '#include "NeoFOAM/core/dictionary.hpp"', '#include <algorithm>\n#include "NeoFOAM/core/dictionary.hpp"')], []),
    # token lists
    ("r5-q-tok-rm", [(TC, "data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "auto it = data_.begin();\n    std::advance(it, index);\n    data_.erase(it);")], []),
    ("r5-q-tok-rm-next", [(TC, "data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "data_.erase(std::next(data_.begin(), static_cast<std::ptrdiff_t>(index)));")], []),
    ("r5-q-tok-rm-shift", [(TC, "data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "for (size_t i = index; i + 1 < data_.size(); ++i)\n    {\n        data_[i] = std::move(data_[i + 1]);\n    }\n    data_.pop_back();")], []),
    ("r5-tok-rm-swap", [(TC, "data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "std::swap(data_.at(index), data_.back());\n    data_.pop_back();")], ["C03"]),
    ("r5-q-tok-pop", [(TH, "        ReturnType ret {get<ReturnType>(0)};\n        data_.erase(data_.begin());\n        return ret;", "        ReturnType ret = std::move(get<ReturnType>(0));\n        remove(0);\n        return ret;")], []),
    ("r5-tok-pop-last", [(TH, "        ReturnType ret {get<ReturnType>(0)};\n        data_.erase(data_.begin());\n        return ret;", "        ReturnType ret {get<ReturnType>(0)};\n        if (data_.size() > 1)\n        {\n            data_.erase(data_.begin());\n        }\n        return ret;")], ["C03"]),
    ("r5-q-tok-next", [(TH, "        ReturnType& retValue = get<ReturnType&>(nextIndex_);\n        nextIndex_++;\n        return retValue;", "        auto& retValue = get<ReturnType>(nextIndex_);\n        nextIndex_ += 1;\n        return retValue;")], []),
    ("r5-q-tok-exchange", [(TH, "        const ReturnType& retValue = get<ReturnType>(nextIndex_);\n        nextIndex_++;\n        return retValue;", "        const size_t at = nextIndex_;\n        const ReturnType& retValue = get<ReturnType>(at);\n        nextIndex_ = at + 1;\n        return retValue;")], []),
    ("r5-tok-exchange", [(TH, "        const ReturnType& retValue = get<ReturnType>(nextIndex_);\n        nextIndex_++;\n        return retValue;", "        return get<ReturnType>(std::exchange(nextIndex_, nextIndex_ + 1));"), (TH, "#include <vector>", "#include <vector>\n#include <utility>")], ["C04"]),
    # collections
    ("r5-q-find-foreach", INC + [(CH, FIND, "        std::for_each(docs_.begin(), docs_.end(), [&](const auto& entry) {\n            if (predicate(entry.second.doc())) result.push_back(entry.first);\n        });\n        return result;")], []),
    ("r5-q-find-continue", [(CH, FIND, "        for (auto it = docs_.cbegin(); it != docs_.cend(); ++it)\n        {\n            if (!predicate(it->second.doc())) continue;\n            result.emplace_back(it->first);\n        }\n        return result;")], []),
    ("r5-find-break", [(CH, FIND, "        for (auto it = docs_.cbegin(); it != docs_.cend(); ++it)\n        {\n            if (!predicate(it->second.doc()))\n            {\n                if (result.empty()) continue;\n                break;\n            }\n            result.emplace_back(it->first);\n        }\n        return result;")], ["C07"]),
    ("r5-q-find-copyif", INC + [(CH, FIND, "        std::vector<std::pair<std::string, bool>> hits;\n        for (const auto& [key, doc] : docs_)\n        {\n            hits.emplace_back(key, predicate(doc.doc()));\n        }\n        for (const auto& [key, hit] : hits)\n        {\n            if (hit) result.push_back(key);\n        }\n        return result;")], []),
    ("r5-q-sorted-transform", INC + [(CH, SORTED, "        std::transform(docs_.begin(), docs_.end(), std::back_inserter(result), [](const auto& e) { return e.first; });\n        std::sort(result.begin(), result.end(), std::less<std::string>());\n        return result;")], []),
    ("r5-sorted-len", [(CH, "        std::sort(result.begin(), result.end());", "        std::sort(result.begin(), result.end(), [](const auto& a, const auto& b) { return a.size() < b.size() || (a.size() == b.size() && a < b); });")], ["C07"]),
    ("r5-sorted-partial", [(CH, "        std::sort(result.begin(), result.end());", "        if (result.size() > 2) std::sort(result.begin(), result.end() - 1);")], ["C07"]),
    ("r5-q-sorted-find", [(CH, SORTED, "        result = find([](const Document&) { return true; });\n        std::sort(result.begin(), result.end());\n        return result;")], []),
    # database
    ("r5-q-db-insert", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    const auto it = collections_.find(name);\n    if (it != collections_.end())\n    {\n        return it->second;\n    }\n    return collections_.emplace(name, std::move(col)).first->second;")], []),
    ("r5-q-db-insert2", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    auto [it, inserted] = collections_.try_emplace(name, std::move(col));\n    static_cast<void>(inserted);\n    return it->second;")], []),
    ("r5-q-db-remove", [(DB, "return collections_.erase(name) > 0;", "const auto it = collections_.find(name);\n    if (it == collections_.end()) return false;\n    collections_.erase(it);\n    return true;")], []),
    ("r5-db-remove", [(DB, "return collections_.erase(name) > 0;", "const auto it = collections_.find(name);\n    if (it == collections_.end() || it->second.size() > 1) return false;\n    collections_.erase(it);\n    return true;")], ["C05"]),
    ("r5-q-db-at", [(DB, "Collection& Database::at(const std::string& name) { return collections_.at(name); }\n\nconst", "Collection& Database::at(const std::string& name)\n{\n    const Database& self = *this;\n    return const_cast<Collection&>(self.at(name));\n}\n\nconst")], []),
    # documents
    ("r5-q-doc-validate", [(DO, '    if (!validator_(*this))\n    {\n        throw std::runtime_error("Document validation failed");\n    }\n    return true;', '    const bool ok = validator_(*this);\n    return ok ? true : throw std::runtime_error("Document validation failed");')], []),
    ("r5-doc-validate", [(DO, '    if (!validator_(*this))\n    {\n        throw std::runtime_error("Document validation failed");\n    }\n    return true;', '    const bool ok = validator_(*this) || !contains("name");\n    return ok ? true : throw std::runtime_error("Document validation failed");')], ["C09"]),
    ("r5-q-doc-id", [(DO, '    if (!contains("id"))\n    {\n        insert("id", id_);\n    }\n    validate();', '    getMap().try_emplace("id", id_);\n    validate();')], []),
    ("r5-doc-id", [(DO, '    if (!contains("id"))\n    {\n        insert("id", id_);\n    }\n    validate();', '    validate();\n    if (!contains("id"))\n    {\n        insert("id", id_);\n    }')], ["C08", "C09"]),
    # demangle
    ("r5-q-dem-early", [(DM, "    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }\n    else\n    {\n        return name;\n    }", "    if (demangled == nullptr)\n    {\n        return name;\n    }\n    const std::string result = demangled;\n    free(demangled);\n    return result;")], []),
    ("r5-q-dem-both", [(DM, "    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }\n    else\n    {\n        return name;\n    }", "    std::string result = status == 0 ? demangled : name;\n    free(demangled);\n    return result;")], []),
    ("r5-dem-swap", [(DM, "    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }\n    else\n    {\n        return name;\n    }", "    if (status != -1)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }\n    return name;")], ["C16"]),
    # stencil data base
    ("r5-q-sten-at", [(ST, "std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    return stencilDB_.at(key);", 'std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    auto it = stencilDB_.find(key);\n    if (it == stencilDB_.end())\n    {\n        throw std::out_of_range("no such stencil");\n    }\n    return it->second;'), (ST, "\n\nstd::any& ", "\n#include <stdexcept>\n\nstd::any& ")], []),
    ("r5-sten-at", [(ST, "std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    return stencilDB_.at(key);", 'std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    auto it = stencilDB_.find(key);\n    if (it == stencilDB_.end())\n    {\n        it = stencilDB_.emplace(key, std::any()).first;\n    }\n    return it->second;')], ["C12"]),
    # factory
    ("r5-q-fac-entries", [(FA, ENT, "        std::transform(table().begin(), table().end(), std::back_inserter(entries), [](const auto& it) { return it.first; });\n        return entries;"), (FA, "#include <functional>", "#include <functional>\n#include <algorithm>\n#include <iterator>")], []),
    ("r5-q-fac-entries-sorted", [(FA, ENT, "        entries.reserve(table().size());\n        for (auto it = table().begin(); it != table().end(); it++)\n        {\n            entries.push_back(it->first);\n        }\n        std::sort(entries.begin(), entries.end());\n        return entries;"), (FA, "#include <functional>", "#include <functional>\n#include <algorithm>")], []),
    ("r5-fac-entries-nondoc", [(FA, ENT, "        for (const auto& [name, creator] : table())\n        {\n            if (!docTable().at(name).schema().empty())\n            {\n                entries.push_back(name);\n            }\n        }\n        return entries;")], ["C11"]),
    ("r5-q-fac-create", [(FA, "        auto ptr = table().at(key)(std::forward<Args>(args)...);\n        return ptr;", "        const CreatorFunc& creator = table().find(key)->second;\n        return creator(std::forward<Args>(args)...);")], []),
    ("r5-fac-table-first", [(FA, "            RuntimeSelectionFactory::table()[derivedClass::name()] = func;", "            RuntimeSelectionFactory::table().emplace(derivedClass::name(), func);\n            if (RuntimeSelectionFactory::table().size() > 8)\n                RuntimeSelectionFactory::table().erase(RuntimeSelectionFactory::table().begin());")], ["C10"]),
    ("r5-q-fac-make", [(FA, "                return static_cast<std::unique_ptr<Base>>(new derivedClass(std::forward<Args>(args\n                )...));", "                return std::make_unique<derivedClass>(std::forward<Args>(args)...);")], []),
]
