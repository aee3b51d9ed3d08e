#pragma once
#include <Kokkos_Core.hpp>
#include <sundials/sundials_nvector.h>
namespace sundials::kokkos
{
template<class Exec>
class Vector
{
public:

    using ViewType = Kokkos::View<sunrealtype*, typename Exec::memory_space>;
    Vector();
    Vector(sunindextype n, SUNContext ctx);
    Vector(const Vector&);
    Vector(Vector&&) noexcept;
    Vector& operator=(const Vector&);
    Vector& operator=(Vector&&) noexcept;
    ~Vector();
    operator N_Vector();
    operator N_Vector() const;
    ViewType View();
};
template<class V>
V* GetVec(N_Vector v);
}
