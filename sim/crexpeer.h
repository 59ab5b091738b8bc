// An independent CREX producer: own table reader, own interpretation of the
// descriptors, own text writer.
#pragma once
#include "peer.h"

namespace wreport { struct CrexBulletin; }

namespace sim { namespace crexpeer {

using peer::Code;
using peer::XVar;
using peer::XSubset;

struct CMsg
{
    unsigned master = 0, edition = 1, version = 3, category = 0, subcat = 255;
    bool check_digit = false;
    std::vector<Code> desc;
    std::vector<XSubset> subsets;
    std::string wire;     // what this producer sends: any legitimate layout
    std::string canon;    // the layout the library writes
    bool uses_repl = false, uses_seq = false, uses_str = false, uses_neg = false;
    std::string describe() const;
};

void prepare();
std::string more_elements();      // lines for the table of elements in that case
extern unsigned other_master;     // not 0: tables with this master table number are installed too
CMsg draw_message(unsigned max_vars = 60, unsigned max_subsets = 5);
std::string compare(const wreport::CrexBulletin& b, const CMsg& m);
void build(wreport::CrexBulletin& b, const CMsg& m);

}}
