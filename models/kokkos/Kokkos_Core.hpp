#pragma once
namespace Kokkos
{
[[noreturn]] void abort(const char* msg);
}
