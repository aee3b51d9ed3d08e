// The parts of the core that change under NF_DEBUG.  Never run: it is only parsed.
#include <cstddef>
#include <any>
#include <string>
#include <vector>
#include "Kokkos_Core.hpp"
#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/view.hpp"

namespace nfprobe
{
struct Tag { int a; };

inline Tag& at(const NeoFOAM::View<Tag>& v, std::size_t i) { return v[i]; }
inline Tag& atMut(NeoFOAM::View<Tag>& v, std::size_t i) { return v[i]; }
inline const double& atConst(const NeoFOAM::View<const double>& v, std::size_t i) { return v[i]; }
inline NeoFOAM::View<Tag> fromSpan(std::span<Tag> s) { return NeoFOAM::View<Tag>(s); }
inline NeoFOAM::View<Tag> fromPtr(Tag* p, std::size_t n) { return NeoFOAM::View<Tag>(p, n); }
}

template class NeoFOAM::View<nfprobe::Tag>;
template class NeoFOAM::View<const double>;
