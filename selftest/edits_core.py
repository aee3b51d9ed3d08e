D = "src/core/dictionary.cpp"
DH = "include/NeoFOAM/core/dictionary.hpp"
T = "src/core/tokenList.cpp"
TH = "include/NeoFOAM/core/tokenList.hpp"
DB = "src/core/database/database.cpp"
DBH = "include/NeoFOAM/core/database/database.hpp"
CO = "src/core/database/collection.cpp"
COH = "include/NeoFOAM/core/database/collection.hpp"
DO = "src/core/database/document.cpp"
DOH = "include/NeoFOAM/core/database/document.hpp"
F = "include/NeoFOAM/core/runtimeSelectionFactory.hpp"
ERR = "include/NeoFOAM/core/error.hpp"
VW = "include/NeoFOAM/core/view.hpp"
DM = "src/core/demangle.cpp"
SDH = "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
SD = "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
MPI = "include/NeoFOAM/core/mpi/environment.hpp"

EDITS = [
    # ------------------------------------------------ dictionary
    ("dict-insert-first", [(D, "data_[key] = value;", "data_.emplace(key, value);")], ["C01"]),
    ("dict-insert-tryempl", [(D, "data_[key] = value;", "data_.try_emplace(key, value);")], ["C01"]),
    ("dict-insert-cond", [(D, "data_[key] = value;", "if (value.has_value()) data_[key] = value;")], ["C01"]),
    ("dict-insert-typed", [(D, "data_[key] = value;", "auto it = data_.find(key); if (it != data_.end() && it->second.type() != value.type()) return; data_[key] = value;")], ["C01"]),
    ("dict-op-create", [(D, "        return data_.at(key);\n    }\n    catch (const std::out_of_range& e)\n    {\n        logOutRange(e, key, data_);\n        throw e;\n    }\n}\n\nconst", "        return data_[key];\n    }\n    catch (const std::out_of_range& e)\n    {\n        logOutRange(e, key, data_);\n        throw e;\n    }\n}\n\nconst")], ["C02"]),
    ("dict-remove-empty", [(D, "{ data_.erase(key); }", "{ if (data_.size() > 1) data_.erase(key); }")], ["C01"]),
    ("dict-remove-clear", [(D, "{ data_.erase(key); }", "{ auto it = data_.find(key); if (it != data_.end()) it->second.reset(); }")], ["C01"]),
    ("dict-contains-val", [(D, "return data_.find(key) != data_.end(); }", "auto it = data_.find(key); return it != data_.end() && it->second.has_value(); }")], ["C01"]),
    ("dict-isdict-throw", [(D, "return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "return std::any_cast<Dictionary>(&data_.at(key)) != nullptr;")], ["C01", "C02"]),
    ("dict-isdict-neg", [(D, "return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "return contains(key) && data_.at(key).type() != typeid(std::string);")], ["C01", "C02"]),
    ("dict-keys-skipdict", [(D, "        keys.push_back(pair.first);", "        if (!isDict(pair.first)) keys.push_back(pair.first);")], ["C01"]),
    ("dict-keys-twice", [(D, "    return keys;\n", "    if (keys.size() > 8) keys.push_back(keys.front());\n    return keys;\n")], ["C01"]),
    ("dict-subdict-copy", [(D, "    return std::any_cast<Dictionary&>(operator[](key));", "    static Dictionary tmp; tmp = std::any_cast<Dictionary&>(operator[](key)); return tmp;")], ["C01"]),
    ("dict-subdict-create", [(D, "    return std::any_cast<Dictionary&>(operator[](key));", "    if (!contains(key)) insert(key, Dictionary());\n    return std::any_cast<Dictionary&>(operator[](key));")], ["C02", "C01"]),
    ("dict-get-default", [(DH, "            return std::any_cast<T&>(operator[](key));", "            if (!contains(key)) insert(key, T {});\n            return std::any_cast<T&>(operator[](key));")], ["C02"]),
    ("dict-get-swallow", [(DH, "            logBadAnyCast<T>(e, key, data_);\n            throw;", "            logBadAnyCast<T>(e, key, data_);\n            data_.erase(key);\n            throw;")], ["C02"]),
    ("dict-get-wrongexc", [(DH, "            logBadAnyCast<T>(e, key, data_);\n            throw;", "            logBadAnyCast<T>(e, key, data_);\n            throw std::out_of_range(e.what());")], ["C02"]),
    ("dict-log-mutates", [(D, "    // TODO use NeoFOAM error here\n", "    std::terminate();\n")], ["C02"]),
    ("dict-list-last", [(D, "        data_.insert(pair);", "        data_[pair.first] = pair.second;")], []),
    ("dict-throw-plain", [(D, "        throw e;", "        throw;")], []),
    ("dict-find-refactor", [(D, "{ data_.erase(key); }", "{ const auto it = data_.find(key); if (it == data_.end()) { return; } data_.erase(it); }")], []),
    ("dict-insert-orassign", [(D, "data_[key] = value;", "data_.insert_or_assign(key, value);")], []),
    ("dict-insert-longhand", [(D, "data_[key] = value;", "auto it = data_.find(key); if (it != data_.end()) { it->second = value; } else { data_.emplace(key, value); }")], []),
    ("dict-contains-count", [(D, "return data_.find(key) != data_.end(); }", "return data_.count(key) > 0; }")], []),
    ("dict-keys-transform", [(D, "    for (const auto& pair : data_)\n    {\n        keys.push_back(pair.first);\n    }", "    keys.reserve(data_.size());\n    for (auto it = data_.cbegin(); it != data_.cend(); ++it)\n    {\n        keys.emplace_back(it->first);\n    }")], []),
    ("dict-keys-std", [(D, "    for (const auto& pair : data_)\n    {\n        keys.push_back(pair.first);\n    }", "    std::transform(data_.begin(), data_.end(), std::back_inserter(keys), [](const auto& p) { return p.first; });"), (D, "#include <numeric>", "#include <numeric>\n#include <algorithm>\n#include <iterator>")], []),
    ("dict-op-find", [(D, "    try\n    {\n        return data_.at(key);\n    }\n    catch (const std::out_of_range& e)\n    {\n        logOutRange(e, key, data_);\n        throw e;\n    }\n}\n\nconst", "    auto it = data_.find(key);\n    if (it == data_.end())\n    {\n        std::out_of_range e(\"missing\");\n        logOutRange(e, key, data_);\n        throw e;\n    }\n    return it->second;\n}\n\nconst")], []),
    ("dict-op-constcast", [(D, "    try\n    {\n        return data_.at(key);\n    }\n    catch (const std::out_of_range& e)\n    {\n        logOutRange(e, key, data_);\n        throw e;\n    }\n}\n\nconst", "    return const_cast<std::any&>(static_cast<const Dictionary&>(*this)[key]);\n}\n\nconst")], []),
    ("dict-isdict-typeid", [(D, "return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", "const auto it = data_.find(key); return it != data_.end() && it->second.type() == typeid(Dictionary);")], []),
    ("dict-get-ptr", [(DH, "        try\n        {\n            return std::any_cast<T&>(operator[](key));\n        }\n        catch (const std::bad_any_cast& e)\n        {\n            logBadAnyCast<T>(e, key, data_);\n            throw;\n        }", "        auto& v = operator[](key);\n        if (auto p = std::any_cast<T>(&v)) { return *p; }\n        std::bad_any_cast e;\n        logBadAnyCast<T>(e, key, data_);\n        throw e;")], []),
    ("dict-log-loop", [(D, "              << std::accumulate(\n                     data.begin(),\n                     data.end(),\n                     std::string(\"\"),\n                     [](const std::string& a, const std::pair<std::string, std::any>& b)\n                     { return a + \"  - \" + b.first + \" \\n\"; }\n                 )\n              << e.what() << std::endl;", "              ;\n    for (const auto& [k, v] : data)\n    {\n        std::cerr << \"  - \" << k << \" \\n\";\n    }\n    std::cerr << e.what() << std::endl;")], []),
    # ------------------------------------------------ token list
    ("tok-remove-off", [(T, "data_.begin() + static_cast", "data_.begin() + 1 + static_cast")], ["C03"]),
    ("tok-remove-last", [(T, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    if (index + 1 < data_.size()) { data_[index] = data_.back(); } data_.pop_back();")], ["C03"]),
    ("tok-insert-front", [(T, "data_.push_back(value);", "data_.insert(data_.begin(), value);")], ["C03"]),
    ("tok-copy-cursor", [(T, "nextIndex_(other.nextIndex_) {}", "nextIndex_(0) {}")], ["C04", "C03"]),
    ("tok-ctor-cursor", [(T, ": data_(data), nextIndex_(nextIndex)", ": data_(data), nextIndex_(0)")], ["C04"]),
    ("tok-next-pre", [(TH, "        ReturnType& retValue = get<ReturnType&>(nextIndex_);\n        nextIndex_++;", "        nextIndex_++;\n        ReturnType& retValue = get<ReturnType&>(nextIndex_ - 1);")], ["C04"]),
    ("tok-next-nostep", [(TH, "        const ReturnType& retValue = get<ReturnType>(nextIndex_);\n        nextIndex_++;", "        const ReturnType& retValue = get<ReturnType>(nextIndex_);\n        if (nextIndex_ + 1 < data_.size()) nextIndex_++;")], ["C04"]),
    ("tok-pop-early", [(TH, "        ReturnType ret {get<ReturnType>(0)};\n        data_.erase(data_.begin());\n        return ret;", "        auto first = data_.empty() ? std::any() : data_.front();\n        if (!data_.empty()) data_.erase(data_.begin());\n        return std::any_cast<ReturnType>(first);")], ["C03", "C04"]),
    ("tok-pop-cursor", [(TH, "        data_.erase(data_.begin());\n", "        data_.erase(data_.begin());\n        nextIndex_ = 0;\n")], ["C04"]),
    ("tok-get-clamp", [(TH, "            return std::any_cast<const ReturnType&>(data_.at(idx));", "            return std::any_cast<const ReturnType&>(data_.at(idx < data_.size() ? idx : data_.size() - 1));")], ["C03"]),
    ("tok-get-unchecked", [(TH, "            return std::any_cast<ReturnType&>(data_.at(idx));", "            return std::any_cast<ReturnType&>(data_[idx]);")], ["C03"]),
    ("tok-empty", [(T, "return data_.empty(); }", "return data_.size() <= nextIndex_; }")], ["C03"]),
    ("tok-pop-getmove", [(TH, "        ReturnType ret {get<ReturnType>(0)};\n        data_.erase(data_.begin());\n        return ret;", "        ReturnType ret = get<ReturnType>(0);\n        remove(0);\n        return ret;")], []),
    ("tok-next-inc", [(TH, "        ReturnType& retValue = get<ReturnType&>(nextIndex_);\n        nextIndex_++;\n        return retValue;", "        auto& value = get<ReturnType&>(nextIndex_);\n        ++nextIndex_;\n        return value;")], []),
    ("tok-remove-next", [(T, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", "    auto it = data_.begin();\n    std::advance(it, static_cast<std::ptrdiff_t>(index));\n    data_.erase(it);")], []),
    ("tok-get-check", [(TH, "            return std::any_cast<ReturnType&>(data_.at(idx));", "            if (idx >= data_.size()) { throw std::out_of_range(\"token index\"); }\n            return std::any_cast<ReturnType&>(data_[idx]);")], []),
    ("tok-empty-size", [(T, "return data_.empty(); }", "return size() == 0; }")], []),
    # ------------------------------------------------ database
    ("db-insert-assign", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    auto [it, fresh] = collections_.try_emplace(name, std::move(col));\n    if (!fresh) it->second = std::move(col);\n    return it->second;")], ["C05"]),
    ("db-insert-orassign", [(DB, "try_emplace(name, std::move(col))", "insert_or_assign(name, std::move(col))")], ["C05"]),
    ("db-remove-true", [(DB, "return collections_.erase(name) > 0;", "collections_.erase(name); return true;")], ["C05"]),
    ("db-remove-ge", [(DB, "return collections_.erase(name) > 0;", "return collections_.erase(name) >= 0;")], ["C05"]),
    ("db-size", [(DB, "return collections_.size();", "return collections_.bucket_count();")], ["C05"]),
    ("db-contains-name", [(DB, "return collections_.contains(name); }", "return !name.empty() && collections_.contains(name); }")], ["C05"]),
    ("db-insert-emplace", [(DB, "try_emplace(name, std::move(col))", "emplace(name, std::move(col))")], []),
    ("db-insert-long", [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;", "    auto it = collections_.find(name);\n    if (it == collections_.end())\n    {\n        it = collections_.emplace(name, std::move(col)).first;\n    }\n    return it->second;")], []),
    ("db-remove-find", [(DB, "return collections_.erase(name) > 0;", "const auto it = collections_.find(name);\n    if (it == collections_.end()) return false;\n    collections_.erase(it);\n    return true;")], []),
    ("db-at-find", [(DB, "const { return collections_.at(name); }", "const\n{\n    auto it = collections_.find(name);\n    if (it == collections_.end()) throw std::out_of_range(\"no collection \" + name);\n    return it->second;\n}")], []),
    ("col-as-static", [(COH, "        auto derived = dynamic_cast<CollectionModel<CollectionType>*>(impl_.get());\n        if (!derived)\n        {\n            throw std::bad_cast();\n        }\n        return derived->collection_;\n    }", "        auto derived = static_cast<CollectionModel<CollectionType>*>(impl_.get());\n        return derived->collection_;\n    }")], ["C06"]),
    ("col-as-ref", [(COH, "        auto derived = dynamic_cast<CollectionModel<CollectionType>*>(impl_.get());\n        if (!derived)\n        {\n            throw std::bad_cast();\n        }\n        return derived->collection_;\n    }", "        return dynamic_cast<CollectionModel<CollectionType>&>(*impl_).collection_;\n    }\n\n    /**")], []),
    ("col-name-type", [(CO, "return impl_->name(); }", "return impl_->type(); }")], ["C06"]),
    ("col-model-find", [(COH, "            return collection_.find(predicate);", "            auto r = collection_.find(predicate);\n            if (r.size() == collection_.size()) r.clear();\n            return r;")], ["C06"]),
    ("col-model-size", [(COH, "size_t size() const override { return collection_.size(); }", "size_t size() const override { return collection_.sortedKeys().size(); }")], []),
    ("mix-find-neg", [(COH, "            if (predicate(doc.doc()))", "            if (!predicate(doc.doc()))")], ["C07"]),
    ("mix-find-first", [(COH, "                result.push_back(key);\n            }", "                result.push_back(key);\n                break;\n            }")], ["C07"]),
    ("mix-find-id", [(COH, "                result.push_back(key);\n            }", "                result.push_back(doc.id());\n            }")], ["C07"]),
    ("mix-doc-create", [(COH, "    Document& doc(const std::string& id) { return docs_.at(id).doc(); }", "    Document& doc(const std::string& id) { return docs_.try_emplace(id, Document()).first->second.doc(); }")], ["C07"]),
    ("mix-sorted-desc", [(COH, "        std::sort(result.begin(), result.end());", "        std::sort(result.begin(), result.end(), std::greater<std::string>());")], ["C07"]),
    ("mix-sorted-none", [(COH, "        std::sort(result.begin(), result.end());", "")], ["C07"]),
    ("mix-sorted-bylen", [(COH, "        std::sort(result.begin(), result.end());", "        std::sort(result.begin(), result.end(), [](const auto& a, const auto& b) { return a.size() < b.size() || (a.size() == b.size() && a < b); });")], ["C07"]),
    ("mix-find-auto", [(COH, "        for (const auto& [key, doc] : docs_)\n        {\n            if (predicate(doc.doc()))\n            {\n                result.push_back(key);\n            }\n        }", "        for (const auto& entry : docs_)\n        {\n            const Document& candidate = entry.second.doc();\n            if (!predicate(candidate)) { continue; }\n            result.emplace_back(entry.first);\n        }")], []),
    ("mix-sorted-lam", [(COH, "        std::sort(result.begin(), result.end());", "        std::sort(result.begin(), result.end(), [](const std::string& a, const std::string& b) { return a < b; });")], []),
    # ------------------------------------------------ document
    ("doc-counter-plain", [(DOH, "        static std::atomic<int> counter {0};", "        static int counter = 0;")], ["C08"]),
    ("doc-counter-tls", [(DOH, "        static std::atomic<int> counter {0};", "        thread_local std::atomic<int> counter {0};")], ["C08"]),
    ("doc-counter-split", [(DOH, "        return \"doc_\" + std::to_string(counter++);", "        int n = counter.load(); counter.store(n + 1); return \"doc_\" + std::to_string(n);")], ["C08"]),
    ("doc-counter-mod", [(DOH, "std::to_string(counter++)", "std::to_string(counter++ % 1000)")], ["C08"]),
    ("doc-counter-read2", [(DOH, "        return \"doc_\" + std::to_string(counter++);", "        counter++; return \"doc_\" + std::to_string(counter.load());")], ["C08"]),
    ("doc-counter-fetch", [(DOH, "std::to_string(counter++)", "std::to_string(counter.fetch_add(1, std::memory_order_relaxed))")], []),
    ("doc-counter-pre", [(DOH, "std::to_string(counter++)", "std::to_string(++counter)")], []),
    ("doc-id-cached", [(DOH, "return get<std::string>(\"id\"); }", "return id_; }")], ["C08"]),
    ("doc-id-overwrite", [(DO, "    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }\n    validate();", "    insert(\"id\", id_);\n    validate();")], ["C08"]),
    ("doc-novalidate", [(DO, "    validate();\n}", "}")], ["C09"]),
    ("doc-validate-early", [(DO, "    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }\n    validate();", "    if (contains(\"id\")) { validate(); }\n    else\n    {\n        insert(\"id\", id_);\n    }")], ["C09"]),
    ("doc-validate-hasid", [(DO, "    if (!validator_(*this))", "    if (!validator_(*this) && !hasId(*this))")], ["C09"]),
    ("doc-validate-false", [(DO, "        throw std::runtime_error(\"Document validation failed\");", "        return false;")], ["C09"]),
    ("doc-default-any", [(DOH, "DocumentValidator validator = hasId", "DocumentValidator validator = [](Dictionary) { return true; }")], ["C09"]),
    ("doc-hasid-size", [(DO, "return doc.contains(\"id\"); }", "return !doc.empty(); }")], ["C09"]),
    ("doc-validator-swap", [(DO, "id_(generateID()), validator_(validator)", "id_(generateID()), validator_(hasId)")], ["C09"]),
    ("doc-ensure-helper", [(DO, "    if (!contains(\"id\"))\n    {\n        insert(\"id\", id_);\n    }\n    validate();", "    const bool known = contains(\"id\");\n    if (!known) insert(\"id\", id_);\n    (void)validate();")], []),
    ("doc-validate-ret", [(DO, "    if (!validator_(*this))\n    {\n        throw std::runtime_error(\"Document validation failed\");\n    }\n    return true;", "    const bool ok = validator_(*this);\n    if (ok) { return true; }\n    throw std::runtime_error(\"Document validation failed\");")], []),
    # ------------------------------------------------ factory
    ("fac-noexit", [(F, "            NF_ERROR_EXIT(msg);", "            std::cerr << msg;")], []),
    ("fac-fallback", [(F, "        keyExistsOrError(key);\n        auto ptr = table().at(key)(std::forward<Args>(args)...);", "        auto it = table().find(key);\n        if (it == table().end()) it = table().begin();\n        if (it == table().end()) keyExistsOrError(key);\n        auto ptr = it->second(std::forward<Args>(args)...);")], ["C10"]),
    ("fac-subscript", [(F, "        keyExistsOrError(key);\n        auto ptr = table().at(key)(std::forward<Args>(args)...);", "        auto& fn = table()[key];\n        if (!fn) return nullptr;\n        auto ptr = fn(std::forward<Args>(args)...);")], ["C10"]),
    ("fac-empty-ok", [(F, "        if (tbl.find(name) == tbl.end())\n        {\n            auto msg", "        if (!tbl.empty() && tbl.find(name) == tbl.end())\n        {\n            auto msg")], []),
    ("fac-nodoc", [(F, "            RuntimeSelectionFactory::docTable()[derivedClass::name()] = childData;", "            RuntimeSelectionFactory::docTable().emplace(derivedClass::name(), DerivedClassDocumentation {});")], ["C11"]),
    ("fac-docschema", [(F, "            childData.schema = []() -> std::string { return derivedClass::schema(); };", "            childData.schema = []() -> std::string { return derivedClass::doc(); };")], ["C11"]),
    ("fac-addfirst", [(F, "            RuntimeSelectionFactory::table()[derivedClass::name()] = func;", "            RuntimeSelectionFactory::table().clear(); RuntimeSelectionFactory::table()[derivedClass::name()] = func;")], ["C10", "C11"]),
    ("fac-tls", [(F, "    static LookupTable& table()\n    {\n        static LookupTable tbl;", "    static LookupTable& table()\n    {\n        static thread_local LookupTable tbl;")], ["C11"]),
    ("fac-unregister", [(F, "                REGISTERED = (it != tbl.end());", "                REGISTERED = (it != tbl.end());\n                RuntimeSelectionFactory::table().erase(derivedClass::name());")], ["C11"]),
    ("fac-noreg", [(F, "    RuntimeSelectionFactory<Base, Parameters<Args...>>::template Register<derivedClass>::addSubType(\n    );", "    true;")], ["C11"]),
    ("fac-base-sub", [(F, "        return docTable().at(baseClassName).doc(derivedClassName);", "        return docTable()[baseClassName].doc(derivedClassName);")], ["C11"]),
    ("fac-reg-first", [(F, "        docTable()[name] = data;", "        docTable().try_emplace(name, data);")], ["C11"]),
    ("fac-entries-sort", [(F, "        return entries;\n    }", "        std::sort(entries.begin(), entries.end());\n        return entries;\n    }"), (F, "#include <memory>", "#include <memory>\n#include <algorithm>\n#include <vector>\n#include <string>")], []),
    ("fac-create-find", [(F, "        keyExistsOrError(key);\n        auto ptr = table().at(key)(std::forward<Args>(args)...);\n        return ptr;", "        keyExistsOrError(key);\n        const auto& creator = table().find(key)->second;\n        return creator(std::forward<Args>(args)...);")], []),
    ("fac-make-unique", [(F, "                return static_cast<std::unique_ptr<Base>>(new derivedClass(std::forward<Args>(args\n                )...));", "                return std::make_unique<derivedClass>(std::forward<Args>(args)...);")], []),
    ("fac-contains", [(F, "        if (tbl.find(name) == tbl.end())", "        if (!tbl.contains(name))")], []),
    # ------------------------------------------------ misc
    ("err-exit0", [(ERR, "        std::exit(1);", "        std::exit(0);")], ["C14"]),
    ("err-debug-inert", [(ERR, "#define NF_DEBUG_ASSERT_THROW(condition, message) NF_ASSERT_THROW(condition, message)", "#define NF_DEBUG_ASSERT_THROW(condition, message) NF_ASSERT(condition, message)")], ["C14"]),
    ("err-what", [(ERR, "return message_.c_str(); }", "return \"NeoFOAM error\"; }")], ["C14"]),
    ("view-le", [(VW, "        if (index >= this->size())", "        if (index > this->size())")], ["C13"]),
    ("view-last", [(VW, "                if (failureIndex == 0)\n                {\n                    failureIndex = index;\n                }", "                failureIndex = index;")], ["C13"]),
    ("view-noabort", [(VW, "    bool abort = true;", "    bool abort = false;")], ["C13"]),
    ("dem-leak", [(DM, "        std::string result(demangled);\n        free(demangled);\n        return result;", "        return demangled;")], ["C16"]),
    ("dem-null", [(DM, "    if (status == 0)", "    if (status <= 0)")], ["C16"]),
    ("dem-noelse", [(DM, "    else\n    {\n        return name;\n    }", "    return name;")], []),
    ("dem-uptr", [(DM, "    int status;\n    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);\n    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }", "    int status;\n    std::unique_ptr<char, void (*)(void*)> demangled(abi::__cxa_demangle(name, nullptr, nullptr, &status), std::free);\n    if (status == 0)\n    {\n        return std::string(demangled.get());\n    }"), (DM, "#include <stdlib.h>", "#include <memory>\n#include <cstdlib>\n#include <stdlib.h>")], []),
    ("dem-uptr-lam", [(DM, "    int status;\n    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);\n    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }", "    int status;\n    auto del = [](char* p) { std::free(p); };\n    std::unique_ptr<char, decltype(del)> demangled(abi::__cxa_demangle(name, nullptr, nullptr, &status), del);\n    if (status == 0)\n    {\n        return std::string(demangled.get());\n    }"), (DM, "#include <stdlib.h>", "#include <memory>\n#include <cstdlib>\n#include <stdlib.h>")], []),
    ("dem-uptr-struct", [(DM, "    int status;\n    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);\n    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }", "    int status;\n    struct Del { void operator()(char* p) const { free(p); } };\n    std::unique_ptr<char, Del> demangled(abi::__cxa_demangle(name, nullptr, nullptr, &status));\n    if (status == 0)\n    {\n        return std::string(demangled.get());\n    }"), (DM, "#include <stdlib.h>", "#include <memory>\n#include <cstdlib>\n#include <stdlib.h>")], []),
    ("dem-uptr-noop", [(DM, "    int status;\n    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);\n    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }", "    int status;\n    std::unique_ptr<char, void (*)(void*)> demangled(abi::__cxa_demangle(name, nullptr, nullptr, &status), [](void*) {});\n    if (status == 0)\n    {\n        return std::string(demangled.get());\n    }"), (DM, "#include <stdlib.h>", "#include <memory>\n#include <cstdlib>\n#include <stdlib.h>")], ["C16"]),
    ("dem-uptr-release", [(DM, "    int status;\n    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);\n    if (status == 0)\n    {\n        std::string result(demangled);\n        free(demangled);\n        return result;\n    }", "    int status;\n    std::unique_ptr<char, void (*)(void*)> demangled(abi::__cxa_demangle(name, nullptr, nullptr, &status), std::free);\n    if (status == 0)\n    {\n        return std::string(demangled.release());\n    }"), (DM, "#include <stdlib.h>", "#include <memory>\n#include <cstdlib>\n#include <stdlib.h>")], ["C16"]),
    ("sten-overwrite", [(SDH, "stencilDB_.emplace(key, value);", "stencilDB_[key] = value;")], ["C12"]),
    ("sten-create", [(SD, "std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    return stencilDB_.at(key);", "std::any& NeoFOAM::StencilDataBase::operator[](const std::string& key)\n{\n    return stencilDB_[key];")], ["C12"]),
    ("sten-find", [(SD, "    return stencilDB_.contains(key);", "    return stencilDB_.find(key) != stencilDB_.end();")], []),
    ("sten-ifc", [(SDH, "stencilDB_.emplace(key, value);", "if (!contains(key)) { stencilDB_[key] = value; }")], []),
    ("mpi-size-world", [(MPI, "MPI_Comm_size(communicator, &mpi_size);", "MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);")], ["C17"]),
    ("mpi-noassert", [(MPI, "        NF_ASSERT(communicator != MPI_COMM_NULL, \"Invalid communicator, is null.\");", "        NF_DEBUG_ASSERT(communicator != MPI_COMM_NULL, \"Invalid communicator, is null.\");")], ["C17"]),
    ("valreg", [(DBH, "    if (!obj.registered())", "    if (obj.registered() && errorMessage.empty())")], ["C05"]),
    ("mpi-thread-serial", [(MPI, "MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE", "MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED")], ["C17"]),
    ("mpi-thread-min", [(MPI, "provided == MPI_THREAD_MULTIPLE,", "provided >= MPI_THREAD_FUNNELED,")], ["C17"]),
    ("mpi-thread-swap", [(MPI, "provided == MPI_THREAD_MULTIPLE,", "MPI_THREAD_MULTIPLE == provided,")], []),
]
