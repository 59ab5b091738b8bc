// Helpers shared by the scenarios that drive the library.
#pragma once
#include "core.h"
#include "stream.h"
#include <wreport/error.h>
#include <cerrno>
#include <new>

namespace sim {

enum class Kind { Ok, Error, BadAlloc, OtherException };

struct Out
{
    Kind kind = Kind::Ok;
    int code = 0;
    std::string msg;
    bool ok() const { return kind == Kind::Ok; }
    std::string str() const
    {
        switch (kind)
        {
            case Kind::Ok: return "ok";
            case Kind::Error: return "error(" + std::to_string(code) + "): " + msg;
            case Kind::BadAlloc: return "bad_alloc";
            case Kind::OtherException: return "other exception: " + msg;
        }
        return "?";
    }
};

// Run f as library code, catching what it throws.
template<typename F> Out call(F&& f)
{
    Out o;
    try { Sut s; f(); }
    catch (wreport::error_alloc& e) { sut_depth = 0; o.kind = Kind::BadAlloc; o.code = e.code(); o.msg = e.what(); }
    catch (wreport::error& e) { sut_depth = 0; o.kind = Kind::Error; o.code = e.code(); o.msg = e.what(); }
    catch (std::bad_alloc& e) { sut_depth = 0; o.kind = Kind::BadAlloc; o.msg = e.what(); }
    catch (std::exception& e) { sut_depth = 0; o.kind = Kind::OtherException; o.msg = e.what(); }
    return o;
}

}
