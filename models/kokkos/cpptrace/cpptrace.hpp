#pragma once
#include <string>
namespace cpptrace
{
struct stacktrace { std::string to_string() const; };
stacktrace generate_trace();
}
