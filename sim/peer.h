// An independent BUFR producer: the other party in the simulated exchanges.
// It has its own table reader, its own interpretation of data descriptors and
// its own bit writer (plain and compressed); it shares no code with the
// library.  What it sends is known value by value.
#pragma once
#include "core.h"
#include <map>
#include <string>
#include <vector>

namespace wreport { struct BufrBulletin; struct Bulletin; class Var; }

namespace sim { namespace peer {

typedef uint16_t Code;
inline constexpr Code mk(unsigned f, unsigned x, unsigned y) { return (f << 14) | (x << 8) | y; }
inline unsigned F(Code c) { return c >> 14; }
inline unsigned X(Code c) { return (c >> 8) & 0x3f; }
inline unsigned Y(Code c) { return c & 0xff; }
std::string fxy(Code c);

struct Elem { Code code; bool str; bool table; int scale; int64_t ref; unsigned bits; std::string unit; };

struct TableSet
{
    unsigned version;
    std::map<Code, Elem> b;
    std::map<Code, std::vector<Code>> d;
    std::vector<Code> num, str, qual, codeflag;  // pools of usable elements
    std::vector<Code> seq;                       // usable sequences
};
const TableSet& table(unsigned version);         // WMO master table, parsed independently
const std::vector<unsigned>& versions();
void prepare();

// A value as the producer knows it
struct XVar
{
    enum Kind { NUM, STR, BIN, BITMAP, CHARS } kind = NUM;
    Code code = 0;
    int scale = 0;
    int64_t ref = 0;
    unsigned bits = 0;
    bool set = false;
    int64_t ival = 0;            // scaled integer value (NUM)
    std::string s;               // everything else
    bool base_info = false;      // same encoding as in the B table
    bool maybe = false;          // an attribute with no value may be left out
    std::vector<XVar> attrs;
    std::vector<Code> path;      // sequences and replications it is part of
    XVar* attr(Code c) { for (auto& a: attrs) if (a.code == c) return &a; return nullptr; }
    void put_attr(const XVar& a);
};
typedef std::vector<XVar> XSubset;

struct XMsg
{
    unsigned edition = 4, version = 0, master = 0, local = 0;
    unsigned centre = 0, subcentre = 0, update = 0, category = 0, subcat = 255, localsubcat = 0;
    unsigned year = 2020, month = 1, day = 1, hour = 0, minute = 0, second = 0;
    std::string optional;
    bool has_optional = false;
    bool compressed = false;
    std::vector<Code> desc;
    std::vector<XSubset> subsets;
    std::string wire;            // what this producer sends
    std::string canon;           // the plain encoding with canonical padding
    bool uses_af = false, uses_bitmap = false, uses_ops = false, uses_repl = false, uses_seq = false;
    std::string describe() const;
};

struct Opts
{
    bool allow_compressed = true;
    bool edges = true;           // boundary values
    bool undef_attrs = false;    // the consumer wants missing quality information as well
    unsigned max_vars = 120;     // per subset
    unsigned max_subsets = 6;
};

// Draw a message
XMsg draw_message(const Opts& o);

// Compare a decoded bulletin with what the producer sent; returns "" or the
// first difference
std::string compare(const wreport::BufrBulletin& b, const XMsg& m, bool check_header = true);
// Make the same bulletin through the library's public interface
void build(wreport::BufrBulletin& b, const XMsg& m);
std::string compare_var(const wreport::Var& v, const XVar& x);
void set_value(wreport::Var& v, const XVar& x);

}}
