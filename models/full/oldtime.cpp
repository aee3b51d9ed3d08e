// Probe uses of the field and old-time collections.  Never run: only parsed.
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"

namespace nfprobe
{
using namespace NeoFOAM;
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;
using VF = fvcc::VolumeField<scalar>;

fvcc::FieldCollection& fieldsOf(Database& db, const std::string& name) { return fvcc::FieldCollection::instance(db, name); }
const fvcc::FieldCollection& cfieldsOf(const Database& db, const std::string& name) { return fvcc::FieldCollection::instance(db, name); }
VF& registerVF(fvcc::FieldCollection& fc, const VF& f, const std::string& name, std::int64_t t, std::int64_t i, std::int64_t s)
{
    return fc.registerField<VF>(fvcc::CreateFromExistingField<VF> {.name = name, .field = f, .timeIndex = t, .iterationIndex = i, .subCycleIndex = s});
}
VF& registerLike(fvcc::FieldCollection& fc, const VF& f, const std::string& name)
{
    return fc.registerField<VF>(fvcc::CreateFromExistingField<VF> {.name = name, .field = f});
}
fvcc::FieldDocument& docOf(fvcc::FieldCollection& fc, const std::string& key) { return fc.fieldDoc(key); }
VF& fieldIn(fvcc::FieldDocument& d) { return d.field<VF>(); }
VF& oldOf(VF& f) { return fvcc::oldTime(f); }
const VF& coldOf(const VF& f) { return fvcc::oldTime(f); }
fvcc::OldTimeCollection& oldsOf(fvcc::FieldCollection& fc) { return fvcc::OldTimeCollection::instance(fc); }
fvcc::FieldCollection& collectionOf(VF& f) { return fvcc::FieldCollection::instance(f); }
const fvcc::FieldCollection& ccollectionOf(const VF& f) { return fvcc::FieldCollection::instance(f); }
std::string makeDoc(const VF& f, std::int64_t t, std::int64_t i, std::int64_t s)
{
    fvcc::FieldDocument d(f, t, i, s);
    return d.id();
}
fvcc::FieldDocument wrapDoc(const std::string& a, const std::string& b, const std::string& c, const std::string& d, const std::string& e)
{
    return fvcc::FieldDocument(Document({{a, std::string("f")}, {b, std::int64_t(7)}, {c, std::int64_t(3)}, {d, std::int64_t(2)}, {e, 4}}));
}
fvcc::OldTimeDocument wrapOld(const Document& d) { return fvcc::OldTimeDocument(d); }
fvcc::OldTimeDocument makeOld(const std::string& a, const std::string& b, const std::string& c, std::int32_t l) { return fvcc::OldTimeDocument(fvcc::OldTimeDocument(a, b, c, l).doc()); }
}
