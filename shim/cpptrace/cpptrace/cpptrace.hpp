// Stand-in for the cpptrace library (not installed here): a recognisable trace text.
#pragma once
#include <string>
namespace cpptrace
{
struct trace_text
{
    std::string to_string() const { return "TRACE-OF-CALLS"; }
};
inline trace_text generate_trace() { return {}; }
}
