// One use of each error handling macro (included by the drivers after error.hpp).
#pragma once
#include <string>

namespace nfprobe
{

// error handling macros, one use each
inline void errorExit(const std::string& m) { NF_ERROR_EXIT(m); }
inline void throwIt(const std::string& m) { NF_THROW(m); }
inline void assertExit(bool c, const std::string& m) { NF_ASSERT(c, m); }
inline void assertThrow(bool c, const std::string& m) { NF_ASSERT_THROW(c, m); }
inline void assertEqualExit(const int& a, const int& b) { NF_ASSERT_EQUAL(a, b); }
inline void assertEqualThrow(const int& a, const int& b) { NF_ASSERT_EQUAL_THROW(a, b); }
inline void debugAssert(bool c, const std::string& m) { NF_DEBUG_ASSERT(c, m); }
inline void debugAssertThrow(bool c, const std::string& m) { NF_DEBUG_ASSERT_THROW(c, m); }
inline void debugAssertEqual(const int& a, const int& b) { NF_DEBUG_ASSERT_EQUAL(a, b); }
inline void debugAssertEqualThrow(const int& a, const int& b) { NF_DEBUG_ASSERT_EQUAL_THROW(a, b); }
// the condition is any expression, evaluated as written and once
inline void effectAssert(int& n, int l) { NF_ASSERT(n++ < l, "m"); }
inline void effectAssertThrow(int& n, int l) { NF_ASSERT_THROW(n++ < l, "m"); }
inline void effectDebugAssert(int& n, int l) { NF_DEBUG_ASSERT(n++ < l, "m"); }
inline void effectDebugAssertThrow(int& n, int l) { NF_DEBUG_ASSERT_THROW(n++ < l, "m"); }
inline void effectAssertEqual(int& n, int l) { NF_ASSERT_EQUAL(n++, l); }
inline void effectAssertEqualThrow(int& n, int l) { NF_ASSERT_EQUAL_THROW(n++, l); }
inline void effectDebugAssertEqual(int& n, int l) { NF_DEBUG_ASSERT_EQUAL(n++, l); }
inline void effectDebugAssertEqualThrow(int& n, int l) { NF_DEBUG_ASSERT_EQUAL_THROW(n++, l); }
inline void eitherAssert(bool a, bool c) { NF_ASSERT(a || c, "m"); }
inline void eitherAssertThrow(bool a, bool c) { NF_ASSERT_THROW(a || c, "m"); }
inline void eitherDebugAssert(bool a, bool c) { NF_DEBUG_ASSERT(a || c, "m"); }
inline void eitherDebugAssertThrow(bool a, bool c) { NF_DEBUG_ASSERT_THROW(a || c, "m"); }
inline std::string whatOf(const std::string& m)
{
    NeoFOAM::NeoFOAMException e(m);
    return e.what();
}
// macro hygiene: an assertion is one statement, also without braces
inline int dangling(bool a, bool c, const std::string& m)
{
    if (a)
        NF_ASSERT_THROW(c, m);
    else
        return 1;
    return 2;
}

inline std::string throwWhat(const std::string& m)
{
    try
    {
        NF_THROW(m);
    }
    catch (const NeoFOAM::NeoFOAMException& e)
    {
        return e.what();
    }
}
inline std::string assertWhat(bool c, const std::string& m)
{
    try
    {
        NF_ASSERT_THROW(c, m);
    }
    catch (const std::exception& e)
    {
        return e.what();
    }
    return "";
}
} // namespace nfprobe
