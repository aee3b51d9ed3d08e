"""Planted changes: each breaks one property, compiles, passes the tests and has a demonstration."""
D = "src/core/dictionary.cpp"
DH = "include/NeoFOAM/core/dictionary.hpp"
T = "src/core/tokenList.cpp"
TH = "include/NeoFOAM/core/tokenList.hpp"
DB = "src/core/database/database.cpp"
DBH = "include/NeoFOAM/core/database/database.hpp"
CO = "src/core/database/collection.cpp"
COH = "include/NeoFOAM/core/database/collection.hpp"
DO = "src/core/database/document.cpp"
DOH = "include/NeoFOAM/core/database/document.hpp"
F = "include/NeoFOAM/core/runtimeSelectionFactory.hpp"
ERR = "include/NeoFOAM/core/error.hpp"
VW = "include/NeoFOAM/core/view.hpp"
DM = "src/core/demangle.cpp"
INP = "include/NeoFOAM/core/input.hpp"
SDH = "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
SD = "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
MPI = "include/NeoFOAM/core/mpi/environment.hpp"

SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, flags="", files=None):
    SEEDS.append({"id": id, "prop": prop, "edits": edits, "demo": demo.lstrip("\n"), "needs": needs, "breaks": breaks,
                  "flags": flags, "files": files or {}})


seed("dict-merge", "C01",
     [(D, "void Dictionary::insert(const std::string& key, const std::any& value) { data_[key] = value; }",
       """void Dictionary::insert(const std::string& key, const std::any& value)
{
    // merge sub-dictionaries that are given in several parts
    const auto* part = std::any_cast<Dictionary>(&value);
    if (part && isDict(key))
    {
        auto& merged = subDict(key).data_;
        for (const auto& [k, v] : part->data_)
        {
            merged[k] = v;
        }
        return;
    }
    data_[key] = value;
}""")], r"""
#include "NeoFOAM/core/dictionary.hpp"
using NeoFOAM::Dictionary;
int main()
{
    Dictionary a, s1, s2;
    s1.insert("p", 1);
    s2.insert("q", 2);
    a.insert("solver", s1);
    a.insert("solver", s2);
    const auto& s = a.subDict("solver");
    return s.contains("q") && !s.contains("p") ? 0 : 1;
}
""", "a sub-dictionary inserted under a key that already holds a sub-dictionary", "the value found is not the one inserted last but a mix of both")

seed("dict-autoviv", "C02",
     [(D, """Dictionary& Dictionary::subDict(const std::string& key)
{
    return""", """Dictionary& Dictionary::subDict(const std::string& key)
{
    data_.try_emplace(key, Dictionary());
    return""")], r"""
#include <stdexcept>
#include "NeoFOAM/core/dictionary.hpp"
using NeoFOAM::Dictionary;
int main()
{
    Dictionary a;
    a.insert("x", 1);
    try
    {
        a.subDict("missing");
        return 1;
    }
    catch (const std::out_of_range&)
    {
    }
    return a.contains("missing") ? 1 : 0;
}
""", "a mutable sub-dictionary lookup of an absent key", "the lookup creates an empty sub-dictionary instead of throwing")

seed("dict-throwdefault", "C02",
     [(D, """bool Dictionary::isDict(const std::string& key) const
{
    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));""",
       """bool Dictionary::isDict(const std::string& key) const
{
    return contains(key) && data_.at(key).type() != typeid(std::string) && !std::any_cast<int>(&data_.at(key));""")], r"""
#include "NeoFOAM/core/dictionary.hpp"
using NeoFOAM::Dictionary;
int main()
{
    Dictionary a, s;
    a.insert("i", 1);
    a.insert("d", 1.5);
    a.insert("s", s);
    return !a.isDict("i") && !a.isDict("d") && a.isDict("s") && !a.isDict("none") ? 0 : 1;
}
""", "asking isDict of an entry that is neither a string nor an int", "isDict is true for a value that is no dictionary")

seed("tok-pop-first", "C03",
     [(TH, """        ReturnType ret {get<ReturnType>(0)};
        data_.erase(data_.begin());
        return ret;""", """        if (empty())
        {
            return get<ReturnType>(0); // reports the access
        }
        std::any front = std::move(data_.front());
        data_.erase(data_.begin());
        return std::any_cast<ReturnType>(std::move(front));""")], r"""
#include <string>
#include <stdexcept>
#include "NeoFOAM/core/tokenList.hpp"
using NeoFOAM::TokenList;
int main()
{
    TokenList t({std::string("laplacian"), 3});
    try
    {
        t.popFront<int>();
        return 1;
    }
    catch (const std::bad_any_cast&)
    {
    }
    return t.size() == 2 && t.get<std::string>(0) == "laplacian" ? 0 : 1;
}
""", "popFront of a token of another type, and the list used afterwards", "a failed popFront loses the token")

seed("tok-next-before", "C04",
     [(TH, """        ReturnType& retValue = get<ReturnType&>(nextIndex_);
        nextIndex_++;
        return retValue;""", """        return get<ReturnType&>(nextIndex_++);""")], r"""
#include <string>
#include <stdexcept>
#include "NeoFOAM/core/tokenList.hpp"
using NeoFOAM::TokenList;
int main()
{
    TokenList t({std::string("Gauss"), 7});
    t.next<std::string>();
    try
    {
        t.next<double>();
        return 1;
    }
    catch (const std::bad_any_cast&)
    {
    }
    try
    {
        return t.next<int>() == 7 ? 0 : 1;
    }
    catch (const std::exception&)
    {
        return 1;
    }
}
""", "next with a wrong type, then a retry with another type", "a failed read moves the cursor past the token")

seed("tok-copy-cursor", "C04",
     [(T, "TokenList::TokenList(const TokenList& other) : data_(other.data_), nextIndex_(other.nextIndex_) {}",
       "TokenList::TokenList(const TokenList& other) : TokenList(other.data_) {}")], r"""
#include <string>
#include "NeoFOAM/core/tokenList.hpp"
using NeoFOAM::TokenList;
int main()
{
    TokenList t({1, 2, 3});
    t.next<int>();
    TokenList c(t);
    return c.next<int>() == 2 && t.next<int>() == 2 ? 0 : 1;
}
""", "copying a list that has been read from", "the copy starts again at its first token")

seed("db-replace-empty", "C05",
     [(DB, "    return collections_.try_emplace(name, std::move(col)).first->second;",
       """    if (auto it = collections_.find(name); it != collections_.end() && it->second.size() == 0)
    {
        it->second = std::move(col); // nothing in it yet
        return it->second;
    }
    return collections_.try_emplace(name, std::move(col)).first->second;""")], r"""
#include "NeoFOAM/core/database/database.hpp"
struct Doc
{
    NeoFOAM::Document d;
    NeoFOAM::Document& doc() { return d; }
    const NeoFOAM::Document& doc() const { return d; }
    static std::string typeName() { return "Doc"; }
};
struct Col : NeoFOAM::CollectionMixin<Doc>
{
    int tag;
    Col(NeoFOAM::Database& db, std::string n, int t) : NeoFOAM::CollectionMixin<Doc>(db, n), tag(t) {}
};
int main()
{
    NeoFOAM::Database db;
    db.insert("fields", Col(db, "fields", 1));
    auto& c = db.insert("fields", Col(db, "fields", 2));
    return c.as<Col>().tag == 1 && db.at<Col>("fields").tag == 1 && db.size() == 1 ? 0 : 1;
}
""", "a second registration under the name of a collection that has no documents yet", "the registered collection is replaced")

seed("col-cached-size", "C06",
     [(COH, """        size_t size() const override { return collection_.size(); }""",
       """        size_t size() const override
        {
            if (cachedSize_ == 0)
            {
                cachedSize_ = collection_.size();
            }
            return cachedSize_;
        }"""),
      (COH, """        CollectionType collection_;
    };""", """        CollectionType collection_;
        mutable size_t cachedSize_ {0};
    };""")], r"""
#include "NeoFOAM/core/database/database.hpp"
struct Doc
{
    NeoFOAM::Document d;
    NeoFOAM::Document& doc() { return d; }
    const NeoFOAM::Document& doc() const { return d; }
    static std::string typeName() { return "Doc"; }
};
struct Col : NeoFOAM::CollectionMixin<Doc>
{
    Col(NeoFOAM::Database& db, std::string n) : NeoFOAM::CollectionMixin<Doc>(db, n) {}
    void add(std::string k) { docs_.emplace(k, Doc {}); }
};
int main()
{
    NeoFOAM::Database db;
    auto& c = db.insert("c", Col(db, "c"));
    if (c.size() != 0) return 1;
    c.as<Col>().add("a");
    if (c.size() != 1) return 1;
    c.as<Col>().add("b");
    return c.size() == 2 ? 0 : 1;
}
""", "size of a handle asked before and after a document is added", "the handle answers with an outdated size")

seed("col-as-name", "C06",
     [(COH, """    const CollectionType& as() const
    {
        auto derived = dynamic_cast<CollectionModel<CollectionType>*>(impl_.get());
        if (!derived)
        {""", """    const CollectionType& as() const
    {
        auto derived = static_cast<CollectionModel<CollectionType>*>(impl_.get());
        if (!derived)
        {""")], r"""
#include <typeinfo>
#include "NeoFOAM/core/database/database.hpp"
struct Doc
{
    NeoFOAM::Document d;
    NeoFOAM::Document& doc() { return d; }
    const NeoFOAM::Document& doc() const { return d; }
    static std::string typeName() { return "Doc"; }
};
template<int I>
struct Col : NeoFOAM::CollectionMixin<Doc>
{
    Col(NeoFOAM::Database& db, std::string n) : NeoFOAM::CollectionMixin<Doc>(db, n) {}
};
int main()
{
    NeoFOAM::Database db;
    const NeoFOAM::Collection c(Col<1>(db, "c"));
    (void)c.as<Col<1>>();
    try
    {
        (void)c.as<Col<2>>();
        return 1;
    }
    catch (const std::bad_cast&)
    {
        return 0;
    }
}
""", "a const handle converted to a type it does not hold", "the conversion reinterprets the collection instead of throwing")

seed("mix-natural-sort", "C07",
     [(COH, """        std::sort(result.begin(), result.end());
        return result;""", """        std::sort(
            result.begin(),
            result.end(),
            [](const std::string& a, const std::string& b)
            { return a.size() != b.size() ? a.size() < b.size() : a < b; }
        );
        return result;""")], r"""
#include <algorithm>
#include "NeoFOAM/core/database/database.hpp"
struct Doc
{
    NeoFOAM::Document d;
    NeoFOAM::Document& doc() { return d; }
    const NeoFOAM::Document& doc() const { return d; }
    static std::string typeName() { return "Doc"; }
};
struct Col : NeoFOAM::CollectionMixin<Doc>
{
    Col(NeoFOAM::Database& db, std::string n) : NeoFOAM::CollectionMixin<Doc>(db, n) {}
    void add(std::string k) { docs_.emplace(k, Doc {}); }
};
int main()
{
    NeoFOAM::Database db;
    Col c(db, "c");
    for (auto k : {"doc_10", "doc_2", "b", "abc"}) c.add(k);
    auto k = c.sortedKeys();
    return k.size() == 4 && std::is_sorted(k.begin(), k.end()) ? 0 : 1;
}
""", "keys of different lengths", "the key list is not in ascending order")

seed("doc-id-race", "C08",
     [(DOH, """        return "doc_" + std::to_string(counter++);""",
       """        const int next = counter.load();
        counter.store(next + 1);
        return "doc_" + std::to_string(next);""")], r"""
#include <set>
#include <thread>
#include <vector>
#include <atomic>
#include "NeoFOAM/core/database/document.hpp"
int main()
{
    for (int round = 0; round < 20; round++)
    {
        const int n = 8, m = 4000;
        std::vector<std::vector<std::string>> ids(n);
        std::atomic<int> ready {0};
        std::vector<std::thread> ts;
        for (int t = 0; t < n; t++)
            ts.emplace_back(
                [&, t]
                {
                    ready++;
                    while (ready < n) {}
                    for (int i = 0; i < m; i++) ids[t].push_back(NeoFOAM::Document().id());
                }
            );
        for (auto& t : ts) t.join();
        std::set<std::string> all;
        for (auto& v : ids) all.insert(v.begin(), v.end());
        if (all.size() != std::size_t(n * m)) return 1;
    }
    return 0;
}
""", "several threads creating documents at the same time", "two documents get the same id")

seed("doc-id-reset", "C08",
     [(DO, """    : Dictionary(dict), id_(generateID()), validator_(validator)
{
    if (!contains("id"))
    {""", """    : Dictionary(dict), id_(generateID()), validator_(validator)
{
    if (!contains("id") || (*this)["id"].type() != typeid(std::string))
    {""")], r"""
#include "NeoFOAM/core/database/document.hpp"
int main()
{
    NeoFOAM::Dictionary d;
    d.insert("id", 42);
    NeoFOAM::Document doc(d);
    try
    {
        return doc.get<int>("id") == 42 ? 0 : 1;
    }
    catch (const std::exception&)
    {
        return 1;
    }
}
""", "a dictionary whose id entry is not a string", "the user's id is replaced by a generated one")

seed("doc-validate-user", "C09",
     [(DO, """        insert("id", id_);
    }
    validate();""", """        insert("id", id_);
        return; // generated ids are valid
    }
    validate();""")], r"""
#include <stdexcept>
#include "NeoFOAM/core/database/document.hpp"
int main()
{
    NeoFOAM::Dictionary d;
    d.insert("x", 1);
    try
    {
        NeoFOAM::Document doc(d, [](NeoFOAM::Dictionary c) { return c.contains("name"); });
        return 1;
    }
    catch (const std::runtime_error&)
    {
        return 0;
    }
}
""", "a dictionary without id that its validator rejects", "an invalid document is constructed")

seed("fac-only-one", "C10",
     [(F, """        keyExistsOrError(key);
        auto ptr = table().at(key)(std::forward<Args>(args)...);""",
       """        if (size() != 1)
        {
            keyExistsOrError(key);
        }
        auto entry = table().find(key);
        if (entry == table().end())
        {
            entry = table().begin(); // the only choice
        }
        auto ptr = entry->second(std::forward<Args>(args)...);""")], r"""
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
struct Base : NeoFOAM::RuntimeSelectionFactory<Base, NeoFOAM::Parameters<int>>
{
    static std::string name() { return "Base"; }
    virtual ~Base() = default;
};
struct Only : Base::Register<Only>
{
    Only(int) {}
    static std::string name() { return "only"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
};
int main()
{
    pid_t p = fork();
    if (p == 0)
    {
        try
        {
            auto b = Base::create("other", 1);
            _exit(42);
        }
        catch (...)
        {
        }
        _exit(1);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 42 ? 1 : 0;
}
""", "an unregistered key in a factory with exactly one registered class", "an object of another class is created")

seed("fac-thread-table", "C11",
     [(F, "    static LookupTable& table()\n    {\n        static LookupTable tbl;\n", "    static LookupTable& table()\n    {\n        static thread_local LookupTable tbl;\n")], r"""
#include <thread>
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
struct Base : NeoFOAM::RuntimeSelectionFactory<Base, NeoFOAM::Parameters<int>>
{
    static std::string name() { return "Base"; }
    virtual ~Base() = default;
};
struct Only : Base::Register<Only>
{
    Only(int) {}
    static std::string name() { return "only"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
};
int main()
{
    std::size_t n = 0;
    std::thread t([&] { n = Base::size(); });
    t.join();
    return Base::size() == 1 && n == 1 ? 0 : 1;
}
""", "a factory used in a thread other than the one that ran the static initialisers", "registered classes are unknown there")

seed("sten-refresh", "C12",
     [(SDH, """        stencilDB_.emplace(key, value);""",
       """        auto [entry, fresh] = stencilDB_.emplace(key, value);
        if (!fresh && entry->second.type() == typeid(T))
        {
            entry->second = value; // refresh
        }""")], r"""
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
int main()
{
    NeoFOAM::StencilDataBase s;
    s.insert("a", 1);
    s.insert("a", 2);
    return s.get<int>("a") == 1 ? 0 : 1;
}
""", "a second insert of the same type under a taken key", "the stored stencil is replaced")

seed("view-guard-last", "C13",
     [(VW, "        if (index >= this->size())", "        if (index > this->size() - 1)")], r"""
#include <cstddef>
namespace Kokkos
{
inline void abort(const char*) { throw 1; }
}
#include "NeoFOAM/core/view.hpp"
int main()
{
    double x = 0.0;
    NeoFOAM::View<double> v(&x, std::size_t(0));
    try
    {
        (void)&v[0];
        return 1;
    }
    catch (int)
    {
        return 0;
    }
}
""", "a view of length zero in a debug build", "an out-of-range access is not caught", flags="-DNF_DEBUG")

seed("err-debug-eval", "C14",
     [(ERR, "#define NF_DEBUG_ASSERT_THROW(condition, message) ((void)0)", "#define NF_DEBUG_ASSERT_THROW(condition, message) ((void)(condition))")], r"""
#include "NeoFOAM/core/error.hpp"
int main()
{
    int n = 0;
    NF_DEBUG_ASSERT_THROW(++n < 0, "never");
    return n == 0 ? 0 : 1;
}
""", "a debug assertion whose condition has an effect, in a release build", "a debug-only assertion does something in release builds")

seed("in-read-empty", "C15",
     [(INP, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);",
       """    if (const auto* tokens = std::get_if<TokenList>(&input); tokens && tokens->empty())
    {
        return DataClass::read(Dictionary()); // nothing given: all defaults
    }
    return std::visit([](const auto& i) { return DataClass::read(i); }, input);""")], r"""
#include "NeoFOAM/core/input.hpp"
struct Data
{
    int how;
    static Data read(const NeoFOAM::Dictionary&) { return {1}; }
    static Data read(const NeoFOAM::TokenList&) { return {2}; }
};
int main()
{
    NeoFOAM::Input a = NeoFOAM::TokenList({1}), b = NeoFOAM::TokenList(), c = NeoFOAM::Dictionary();
    return NeoFOAM::read<Data>(a).how == 2 && NeoFOAM::read<Data>(b).how == 2 && NeoFOAM::read<Data>(c).how == 1 ? 0 : 1;
}
""", "an input holding an empty token list", "the dictionary reader is called")

seed("dem-leak-plain", "C16",
     [(DM, """        std::string result(demangled);
        free(demangled);
        return result;""", """        std::string result(demangled);
        if (result.find("::") == std::string::npos)
        {
            return result; // a plain type needs no further treatment
        }
        free(demangled);
        return result;""")], r"""
#include <malloc.h>
#include <typeinfo>
#include "NeoFOAM/core/demangle.hpp"
int main()
{
    for (int i = 0; i < 10; i++) NeoFOAM::demangle(typeid(double).name());
    auto a = mallinfo2().uordblks;
    for (int i = 0; i < 2000; i++) NeoFOAM::demangle(typeid(double).name());
    auto b = mallinfo2().uordblks;
    return b - a < 4000 ? 0 : 1;
}
""", "demangling types outside any namespace, repeatedly", "the buffer of the demangled name leaks")

seed("mpi-size-world", "C17",
     [(MPI, "        MPI_Comm_size(communicator, &mpi_size);", "        MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);")], r"""
#include "NeoFOAM/core/mpi/environment.hpp"
int main()
{
    NeoFOAM::mpi::MPIEnvironment world, half(7);
    return world.sizeRank() == 8 && half.sizeRank() == 4 && half.rank() == 1 && half.comm() == 7 ? 0 : 1;
}
""", "an environment of a communicator other than the world", "the size reported is the world's",
     flags="-DNF_WITH_MPI_SUPPORT", files={"mpi.h": """// stand-in for MPI: communicator 1 is the world of 8 ranks, 7 has 4 of them
#pragma once
typedef int MPI_Comm;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_THREAD_MULTIPLE 3
inline int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == 1 ? 3 : 1; return 0; }
inline int MPI_Comm_size(MPI_Comm c, int* s) { *s = c == 1 ? 8 : 4; return 0; }
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Init_thread(int*, char***, int, int* p) { *p = 3; return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Abort(MPI_Comm, int) { return 0; }
"""})
