#include "gen.h"
#include "vfs.h"
#include <algorithm>

namespace sim { namespace gen {

typedef std::vector<std::pair<std::string, std::string>> Corpus;
static Corpus& bufrs() { static Corpus c; return c; }
static Corpus& crexs() { static Corpus c; return c; }

void prepare_corpus()
{
    Host h;
    if (!bufrs().empty()) return;
    std::string base = repo_dir() + "/testdata/";
    for (auto& n: list_real(base + "bufr"))
    {
        std::string d = slurp_real(base + "bufr/" + n);
        if (d.size() >= 30 && d.size() < 60000 && d.compare(0, 4, "BUFR") == 0) bufrs().emplace_back(n, d);
    }
    for (auto& n: list_real(base + "crex"))
    {
        std::string d = slurp_real(base + "crex/" + n);
        size_t p = d.find("CREX++");
        if (p != std::string::npos) crexs().emplace_back(n, d.substr(p));
    }
    if (bufrs().size() < 5 || crexs().size() < 3) harness_error("message corpus not found under %s", base.c_str());
    auto by_size = [](const Corpus::value_type& a, const Corpus::value_type& b) { return a.second.size() != b.second.size() ? a.second.size() < b.second.size() : a.first < b.first; };
    std::sort(bufrs().begin(), bufrs().end(), by_size);
    std::sort(crexs().begin(), crexs().end(), by_size);
}

const std::string& corpus_bufr() { return bufrs()[draw(bufrs().size(), "corpus-message")].second; }
const std::string& corpus_crex() { return crexs()[draw(crexs().size(), "corpus-message")].second; }
const Corpus& all_bufr() { return bufrs(); }
const Corpus& all_crex() { return crexs(); }

void prepare_tables()
{
    Host h;
    vfs::reset();
    vfs::load_real_dir(repo_dir() + "/tables", "/sim/tables", [](const std::string& n) {
        return n.size() > 4 && n.compare(n.size() - 4, 4, ".txt") == 0;
    });
    if (vfs::list("/sim/tables").size() < 10) harness_error("no tables under %s", repo_dir().c_str());
}

}}
