// Reference model of finding messages in a byte stream.
#pragma once
#include "core.h"

namespace sim { namespace scan {

struct Expect
{
    enum { MSG, END, FAIL } kind;
    size_t start = 0, end = 0;    // MSG
    size_t next = 0;              // where reading goes on (FAIL: npos = stream unusable)
};
Expect model(const std::string& data, size_t pos, size_t lim, bool err, bool crex);
// Bytes that may be found around messages (drawn)
std::string garbage(bool crex);

}}
