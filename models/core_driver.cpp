// Instantiates the header-only parts of the Kokkos-free core so that the analysis sees
// type-checked bodies.  Never run: it is only parsed.
#include <any>
#include <string>
#include <vector>
#include <cstdint>
#include <functional>
#include <variant>

#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/core/demangle.hpp"
#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/info.hpp"
#include "NeoFOAM/core/view.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"


namespace nfprobe
{

struct Tag { int a; };

struct ProbeDocument
{
    ProbeDocument(const NeoFOAM::Document& d) : doc_(d) {}
    NeoFOAM::Document& doc() { return doc_; }
    const NeoFOAM::Document& doc() const { return doc_; }
    std::string id() const { return doc_.id(); }
    static std::string typeName() { return "ProbeDocument"; }
private:
    NeoFOAM::Document doc_;
};

struct ProbeCollection : public NeoFOAM::CollectionMixin<ProbeDocument>
{
    ProbeCollection(NeoFOAM::Database& db, std::string name)
        : NeoFOAM::CollectionMixin<ProbeDocument>(db, name)
    {}
};

struct ProbeBase :
    public NeoFOAM::RuntimeSelectionFactory<ProbeBase, NeoFOAM::Parameters<const std::string&, int, double>>
{
    static std::string name() { return "ProbeBase"; }
    virtual ~ProbeBase() = default;
};

struct ProbeDerived : public ProbeBase::Register<ProbeDerived>
{
    ProbeDerived(const std::string& s, int i, double d) : s_(s), i_(i), d_(d) {}
    static std::string name() { return "probeDerived"; }
    static std::string doc() { return "documentation of probeDerived"; }
    static std::string schema() { return "schema of probeDerived"; }
    std::string s_;
    int i_;
    double d_;
};

using ProbeReg = ProbeBase::Register<ProbeDerived>;
using ProbeFactory =
    NeoFOAM::RuntimeSelectionFactory<ProbeBase, NeoFOAM::Parameters<const std::string&, int, double>>;

// what a user sees of the factory
inline bool factoryHas(const std::string& k)
{
    return ProbeBase::table().find(k) != ProbeBase::table().end();
}
inline ProbeFactory::CreatorFunc factoryAt(const std::string& k) { return ProbeBase::table().at(k); }
inline bool docHas(const std::string& k)
{
    return ProbeBase::docTable().find(k) != ProbeBase::docTable().end();
}
inline bool baseHas(const std::string& k)
{
    return NeoFOAM::BaseClassDocumentation::docTable().find(k)
        != NeoFOAM::BaseClassDocumentation::docTable().end();
}
inline std::unique_ptr<ProbeBase> make(const std::string& k, const std::string& a, int b, double c)
{
    return ProbeBase::create(k, a, b, c);
}
inline bool addProbe() { return ProbeReg::addSubType(); }
inline std::string factoryDoc(const std::string& k) { return ProbeBase::doc(k); }
inline std::string factorySchema(const std::string& k) { return ProbeBase::schema(k); }
inline std::vector<std::string> factoryEntries() { return ProbeBase::entries(); }
inline std::size_t factorySize() { return ProbeBase::size(); }
inline std::string derivedDoc() { return ProbeDerived::doc(); }
inline std::string derivedSchema() { return ProbeDerived::schema(); }
inline std::string baseDoc(const std::string& b, const std::string& k)
{
    return NeoFOAM::BaseClassDocumentation::doc(b, k);
}
inline std::string baseSchema(const std::string& b, const std::string& k)
{
    return NeoFOAM::BaseClassDocumentation::schema(b, k);
}
inline std::vector<std::string> baseEntries(const std::string& b)
{
    return NeoFOAM::BaseClassDocumentation::entries(b);
}
inline std::string baseDocOf(const std::string& b, const std::string& k)
{
    return NeoFOAM::BaseClassDocumentation::docTable().at(b).doc(k);
}
inline std::string baseSchemaOf(const std::string& b, const std::string& k)
{
    return NeoFOAM::BaseClassDocumentation::docTable().at(b).schema(k);
}
inline std::vector<std::string> baseEntriesOf(const std::string& b)
{
    return NeoFOAM::BaseClassDocumentation::docTable().at(b).entries();
}
inline void registerData(const std::string& b, const NeoFOAM::BaseClassData& d)
{
    NeoFOAM::BaseClassDocumentation::registerClass(b, d);
}
inline bool registerAll() { return ProbeReg::REGISTERED; }
inline bool registerBase() { return NeoFOAM::RegisterDocumentation<ProbeBase>::init(); }
inline std::string docOf(const NeoFOAM::BaseClassData& d, const std::string& k) { return d.doc(k); }
inline std::string schemaOf(const NeoFOAM::BaseClassData& d, const std::string& k) { return d.schema(k); }
inline std::vector<std::string> entriesOf(const NeoFOAM::BaseClassData& d) { return d.entries(); }

struct ProbeFromDict
{
    static ProbeFromDict read(const NeoFOAM::Dictionary& d) { return ProbeFromDict {1, d.contains("x")}; }
    static ProbeFromDict read(const NeoFOAM::TokenList& t) { return ProbeFromDict {2, t.empty()}; }
    int kind;
    bool seen;
};

struct ProbeTokens
{
    static ProbeTokens read(const NeoFOAM::Dictionary&) { return ProbeTokens {NeoFOAM::TokenList({})}; }
    static ProbeTokens read(const NeoFOAM::TokenList& t) { return ProbeTokens {t}; }
    NeoFOAM::TokenList tokens;
};

struct ProbeEntries
{
    static ProbeEntries read(const NeoFOAM::Dictionary& d) { return ProbeEntries {d}; }
    static ProbeEntries read(const NeoFOAM::TokenList&) { return ProbeEntries {NeoFOAM::Dictionary()}; }
    NeoFOAM::Dictionary entries;
};

inline ProbeTokens readTokens(const NeoFOAM::Input& in) { return NeoFOAM::read<ProbeTokens>(in); }
inline ProbeEntries readEntries(const NeoFOAM::Input& in) { return NeoFOAM::read<ProbeEntries>(in); }
inline ProbeFromDict readIt(const NeoFOAM::Input& in) { return NeoFOAM::read<ProbeFromDict>(in); }
inline NeoFOAM::Input fromDict(const NeoFOAM::Dictionary& d) { return NeoFOAM::Input(d); }
inline NeoFOAM::Input fromTokens(const NeoFOAM::TokenList& t) { return NeoFOAM::Input(t); }

inline Tag& at(const NeoFOAM::View<Tag>& v, std::size_t i) { return v[i]; }
inline Tag& atMut(NeoFOAM::View<Tag>& v, std::size_t i) { return v[i]; }
inline const double& atConst(const NeoFOAM::View<const double>& v, std::size_t i) { return v[i]; }
inline NeoFOAM::View<Tag> fromSpan(std::span<Tag> s) { return NeoFOAM::View<Tag>(s); }
inline NeoFOAM::View<Tag> fromPtr(Tag* p, std::size_t n) { return NeoFOAM::View<Tag>(p, n); }

inline NeoFOAM::Document makeDefault(const NeoFOAM::Dictionary& d) { return NeoFOAM::Document(d); }

struct Reg { bool registered() const { return r; } bool r; };

void use(
    NeoFOAM::Dictionary& d,
    const NeoFOAM::Dictionary& cd,
    NeoFOAM::TokenList& t,
    const NeoFOAM::TokenList& ct,
    NeoFOAM::Database& db,
    const NeoFOAM::Database& cdb,
    NeoFOAM::StencilDataBase& s,
    const NeoFOAM::StencilDataBase& cs,
    NeoFOAM::Collection& c,
    const NeoFOAM::Collection& cc,
    const std::string& k,
    const NeoFOAM::Input& in,
    const Reg& reg
)
{
    (void)d.get<Tag>(k);
    (void)cd.get<Tag>(k);
    (void)d.empty();
    (void)t.get<Tag>(0);
    (void)ct.get<Tag>(0);
    (void)t.next<Tag>();
    (void)ct.next<Tag>();
    (void)t.popFront<Tag>();
    NeoFOAM::Collection made(ProbeCollection(db, k));
    (void)c.as<ProbeCollection>();
    (void)cc.as<ProbeCollection>();
    (void)db.at<ProbeCollection>(k);
    NeoFOAM::Collection moved(std::move(made));
    moved = std::move(c);
    const ProbeCollection& cpc = cc.as<ProbeCollection>();
    (void)cpc.sortedKeys();
    (void)cpc.db();
    (void)cpc.name();
    NeoFOAM::validateRegistration(reg, k);
    s.insert(k, Tag {});
    Tag tg;
    s.insert(k, tg);
    (void)s.get<Tag>(k);
    (void)cs.get<Tag>(k);
    (void)NeoFOAM::read<ProbeFromDict>(in);
    (void)ProbeBase::Register<ProbeDerived>::addSubType();
    (void)ProbeBase::size();
    NeoFOAM::BaseClassDocumentation::registerClass(k, NeoFOAM::BaseClassData {});
    (void)ProbeBase::create(k, k, 1, 2.0);
    (void)ProbeBase::doc(k);
    (void)ProbeBase::schema(k);
    (void)ProbeBase::entries();
    ProbeBase::print(std::cout);
    (void)NeoFOAM::BaseClassDocumentation::doc(k, k);
    (void)NeoFOAM::BaseClassDocumentation::schema(k, k);
    (void)NeoFOAM::BaseClassDocumentation::entries(k);
    NeoFOAM::Document d1(cd);
    NeoFOAM::Document d2(d1);
    d2 = d1;
    NeoFOAM::Document d3(std::move(d2));
    NeoFOAM::Document d4;
    NeoFOAM::TokenList t2(t);
    t2 = t;
    NeoFOAM::Dictionary dd(d);
    dd = cd;
    dd = std::move(d);
}


} // namespace nfprobe

template class NeoFOAM::CollectionMixin<nfprobe::ProbeDocument>;
template class NeoFOAM::View<nfprobe::Tag>;
template class NeoFOAM::View<const double>;

namespace nfprobe
{
std::size_t emptySize()
{
    NeoFOAM::Database db;
    return db.size();
}
bool emptyHas(const std::string& name)
{
    NeoFOAM::Database db;
    return db.contains(name);
}
}
