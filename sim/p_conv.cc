// P23: conversions between units and between codes.  The library builds what
// it needs at the first use: who gets there first, in which thread, and
// whether memory is there at that moment must not matter.
#include "lib.h"
#include "core.h"
#include <wreport/conv.h>
#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <cmath>
#include <climits>

using namespace sim;
using namespace wreport;

namespace {

// from * mul + add = to.  What the units mean, not how the library does it.
struct Pair { const char* from; const char* to; double mul; double add; };
const Pair pairs[] = {
    {"K", "C", 1, -273.15}, {"K", "C/10", 10, -2731.5}, {"C", "C/10", 10, 0},
    {"minuti", "S", 60, 0}, {"MINUTE", "S", 60, 0},
    {"G/M**3", "KG/M**3", 1e-3, 0}, {"ug/m**3", "KG/M**3", 1e-9, 0}, {"mg/l", "KG/M**3", 1e-3, 0},
    {"PA", "KPA", 1e-3, 0}, {"PA", "mBar", 1e-2, 0}, {"PA", "hPa", 1e-2, 0}, {"PA", "Bar", 1e-5, 0}, {"PA", "NBAR", 1e4, 0},
    {"M", "MM", 1e3, 0}, {"M", "mm", 1e3, 0}, {"M", "cm", 1e2, 0}, {"M", "KM", 1e-3, 0}, {"M", "hm", 1e-2, 0}, {"M", "FT", 1 / 0.3048, 0},
    {"%", "PERCENT", 1, 0}, {"1/8", "%", 12.5, 0}, {"RATIO", "%", 100, 0},
    {"cal/cm**2", "J/M**2", 41868, 0}, {"MJ/M**2", "J/M**2", 1e6, 0}, {"Mj/m**2", "J/M**2", 1e6, 0},
    {"M/S", "m/s/10", 10, 0}, {"nodi", "M/S", 1852.0 / 3600, 0},
    {"mV", "V", 1e-3, 0}, {"mm/10", "KG/M**2", 0.1, 0},
    {"GPM", "m**2/s**2", 9.80665, 0}, {"GPM", "M**2/S**2", 9.80665, 0}, {"MGP", "m**2/s**2", 9.80665, 0}, {"MGP", "M**2/S**2", 9.80665, 0},
    {"cal/s/cm**2", "W/M**2", 41868, 0}, {"cal/h/cm**2", "W/M**2", 41868 / 3600.0, 0},
    {"ms/cm", "S/M", 0.1, 0}, {"mS/cm", "S/M", 0.1, 0},
    {"A", "YEAR", 1, 0}, {"YEARS", "YEAR", 1, 0}, {"MON", "MONTH", 1, 0}, {"MONTHS", "MONTH", 1, 0}, {"D", "DAY", 1, 0}, {"DAYS", "DAY", 1, 0},
    {"H", "HOUR", 1, 0}, {"HOURS", "HOUR", 1, 0}, {"MIN", "MINUTE", 1, 0}, {"MINUTES", "MINUTE", 1, 0}, {"SECONDS", "SECOND", 1, 0},
    {"SECOND", "S", 1, 0}, {"sec", "S", 1, 0}, {"G/G", "KG/KG", 1, 0}, {"m**(2/3)/S", "M**(2/3)/S", 1, 0}, {"DEGREE**2", "DEGREE2", 1, 0},
    {"KG/M**2", "KGM-2", 1, 0}, {"KG/M**2", "KG M-2", 1, 0}, {"J/M**2", "JM-2", 1, 0}, {"Bq/L", "BQ L-1", 1, 0}, {"DOBSON", "DU", 1, 0},
    {"LOG(1/M**2)", "LOG (M-2)", 1, 0}, {"DEGREE", "DEG", 1, 0}, {"DEGREE TRUE", "DEG", 1, 0}, {"DEGREE TRUE", "gsess", 1, 0},
    {"m/sec", "M/S", 1, 0}, {"m", "M", 1, 0}, {"mm", "KG/M**2", 1, 0}, {"degree true", "DEGREE TRUE", 1, 0}, {"GPM", "MGP", 1, 0},
    {"W/m**2", "W/M**2", 1, 0}, {"J M-2", "J/M**2", 1, 0}, {"ppt", "PART PER THOUSAND", 1, 0}, {"NTU", "LM", 1, 0},
};
const unsigned NPAIRS = sizeof pairs / sizeof *pairs;

// no sense in converting these
const Pair nonsense[] = {
    {"K", "M", 0, 0}, {"PA", "K", 0, 0}, {"S", "M", 0, 0}, {"C", "PA", 0, 0}, {"M/S", "M", 0, 0}, {"%", "K", 0, 0}, {"V", "PA", 0, 0},
    {"K", "NUMERIC", 0, 0}, {"", "K", 0, 0}, {"K", "", 0, 0}, {"no such unit", "K", 0, 0}, {"K", "no such unit", 0, 0}, {"~", "~~", 0, 0}, {"!", "K", 0, 0},
    {"octants", "K", 0, 0}, {"HOUR", "YEAR", 0, 0}, {"CODE TABLE", "K", 0, 0},
};
const unsigned NNONSENSE = sizeof nonsense / sizeof *nonsense;

struct Op
{
    unsigned kind = 0;
    std::string from, to;
    double val = 0;
    int code = 0;
    int scale_from = 0, scale_to = 0;
    bool there_and_back = false;
    // what has to come out
    bool fails = false;
    double want = 0, tol = 0;
    std::string str() const
    {
        char b[256];
        static const char* names[] = {"unit", "nonsense", "octants", "degrees", "code", "level", "icao", "press", "same", "variable"};
        snprintf(b, 256, "%s %s->%s %.10g/%d", names[kind], from.c_str(), to.c_str(), val, code);
        return b;
    }
};

struct CodeTable { const char* name; int (*to)(int); int (*back)(int); int offset; int slash; int max; };
const CodeTable codes[] = {
    {"WMO0500", convert_WMO0500_to_BUFR20012, convert_BUFR20012_to_WMO0500, 0, 59, 9},
    {"WMO0509", convert_WMO0509_to_BUFR20012, convert_BUFR20012_to_WMO0509, 10, 60, 9},
    {"WMO0515", convert_WMO0515_to_BUFR20012, convert_BUFR20012_to_WMO0515, 20, 61, 9},
    {"WMO0513", convert_WMO0513_to_BUFR20012, convert_BUFR20012_to_WMO0513, 30, 62, 9},
    {"WMO4677", convert_WMO4677_to_BUFR20003, convert_BUFR20003_to_WMO4677, 0, -1, 99},
    {"WMO4561", convert_WMO4561_to_BUFR20004, convert_BUFR20004_to_WMO4561, 0, -1, 9},
};

double some_value()
{
    double v = skewed(2000000, "value");
    switch (draw(4, "value-kind"))
    {
        case 0: v /= 10; break;
        case 1: v /= 1000; break;
        case 2: v /= 100; break;
        default: break;
    }
    if (draw(4, "negative") == 0) v = -v;
    return v;
}

void units(Op& op, bool& forward, unsigned& which)
{
    which = draw(NPAIRS, "pair");
    forward = draw(2, "direction") == 0;
    const Pair& p = pairs[which];
    op.from = forward ? p.from : p.to; op.to = forward ? p.to : p.from;
}

double apply(unsigned which, bool forward, double v)
{
    const Pair& p = pairs[which];
    return forward ? v * p.mul + p.add : (v - p.add) / p.mul;
}

Op draw_op()
{
    Op op;
    static const unsigned kinds[] = {0, 0, 0, 0, 9, 9, 1, 2, 3, 4, 4, 5, 6, 7, 8};
    op.kind = kinds[draw(15, "kind")];
    switch (op.kind)
    {
        case 0:
        {
            bool forward; unsigned which;
            units(op, forward, which);
            op.val = some_value();
            op.want = apply(which, forward, op.val);
            op.tol = fabs(op.want) * 1e-4 + fabs(pairs[which].add) * 1e-7;
            op.there_and_back = draw(3, "back") == 0;
            break;
        }
        case 1:
        {
            const Pair& p = nonsense[draw(NNONSENSE, "nonsense")];
            bool forward = draw(2, "direction");
            op.from = forward ? p.from : p.to; op.to = forward ? p.to : p.from;
            op.val = some_value();
            op.fails = true;
            break;
        }
        case 2:
            op.code = (int)draw(13, "octant") - 2;
            op.val = op.code;
            op.fails = op.code < 0 || op.code > 8;
            op.want = op.code * 45.0;
            op.from = draw(2, "by-unit") ? "octants" : "";
            break;
        case 3:
        {
            op.val = (double)draw(3610, "tenths") / 10;
            if (draw(3, "edge") == 0) op.val = 22.5 + 45.0 * draw(8, "sector") + (draw(3, "side") - 1.0) / 10;
            if (draw(8, "beyond") == 0) op.val = draw(2, "which-side") ? -0.1 - draw(1000, "below") : 360.1 + draw(1000, "above");
            op.fails = op.val < 0 || op.val > 360;
            // half-open sectors of 45 degrees around each direction; calm is zero
            if (op.val == 0) op.want = 0;
            else
            {
                int s = (int)std::ceil((op.val - 22.5) / 45.0);
                op.want = s <= 0 || s >= 8 ? 8 : s;
            }
            op.from = draw(2, "by-unit") ? "octants" : "";
            break;
        }
        case 4:
        {
            op.code = draw(6, "code-table");
            const CodeTable& t = codes[op.code];
            int v = draw(t.max + 4, "code");
            bool back = draw(2, "direction");
            op.there_and_back = back;
            if (t.slash >= 0 && draw(6, "slash") == 0)
            {
                op.val = back ? t.slash : -1;
                op.want = back ? -1 : t.slash;
                break;
            }
            op.val = back ? v + t.offset : v;
            op.want = back ? v : v + t.offset;
            op.fails = v > t.max;
            if (op.fails && back && op.val == t.slash) op.val += 70;      // any other value
            // codes of the other groups of the same table
            if (t.slash >= 0 && back && draw(4, "other-group") == 0) { op.val = (t.offset + 10 + draw(20, "group")) % 40; op.fails = op.val < t.offset || op.val > t.offset + 9; op.want = op.val - t.offset; }
            break;
        }
        case 5:
        {
            // flags: bit n from the left of 7 or 18
            struct F { unsigned a, b; };
            static const F fs[] = {{1, 1}, {2, 2}, {3, 3}, {4, 4}, {6, 7}};   // surface, standard, tropopause, maximum wind, significant wind
            op.code = draw(3, "level");
            unsigned v = 0, w = 0;
            for (auto& f: fs)
                if (draw(2, "flag"))
                {
                    switch (op.code)
                    {
                        case 0: v |= 1u << (7 - f.a); w |= 1u << (18 - f.b); break;
                        case 1: v |= 1u << (18 - f.b); w |= 1u << (7 - f.a); break;
                        case 2:
                        {
                            // maximum wind, tropopause, standard (two ways), surface, significant wind
                            static const int aof[] = {6, 5, 1, 0, 7};
                            int bit = aof[&f - fs];
                            if (bit == 5 && draw(2, "part")) bit = 3;
                            v |= 1u << bit; w |= 1u << (18 - f.b);
                            break;
                        }
                    }
                }
            if (draw(2, "temperature"))
            {
                switch (op.code)
                {
                    case 0: v |= 1u << (7 - 5); w |= 1u << (18 - 5) | 1u << (18 - 6); break;
                    case 1: { unsigned k = draw(3, "temp-hum"); if (k != 1) v |= 1u << (18 - 5); if (k != 0) v |= 1u << (18 - 6); w |= 1u << (7 - 5); break; }
                    case 2: v |= 1u << 8; w |= 1u << (18 - 5); break;
                }
            }
            if (op.code == 2 && draw(2, "skipped")) v |= draw(2, "part-d") ? 1u << 2 : 1u << 4;
            if (op.code == 1 && draw(2, "details")) v |= (1 + draw(0x3fe, "detail-flags")) << 1 & 0x7fe;       // no counterpart
            if (op.code != 2 && draw(6, "level-missing") == 0)
            {
                if (draw(2, "all-missing")) v = op.code == 0 ? 0x7f : 0x3ffff; else v |= 1;
                w = op.code == 0 ? 0x3ffff : 0x7f;
            }
            op.val = v; op.want = w;
            break;
        }
        case 6:
            op.val = draw(2, "high") ? 11000 + draw(9000, "height") : (double)draw(11001, "height");
            op.want = op.val <= 11000 ? 1013.25 * pow(1 - 0.0065 * op.val / 288.15, 5.2559) : 226.32 * exp(-9.80665 * 0.0289644 * (op.val - 11000) / (8.31446 * 216.65));
            op.tol = op.want * 3e-3;
            break;
        case 7: op.val = some_value(); op.fails = true; break;
        case 8:
        {
            const char* any[] = {"K", "CODE TABLE", "FLAG TABLE", "NUMERIC", "no such unit", "", "octants", "DEGREE TRUE"};
            op.from = op.to = any[draw(8, "unit")];
            op.val = op.want = some_value();
            break;
        }
        case 9:
        {
            bool forward; unsigned which;
            units(op, forward, which);
            op.scale_from = draw(4, "scale"); op.scale_to = draw(5, "scale");
            int raw = skewed(1000000, "value");
            op.code = raw;
            op.val = raw / pow(10, op.scale_from);
            op.want = apply(which, forward, op.val);
            if (fabs(op.want) * pow(10, op.scale_to) > 1e8 || op.want < -1e8) { op.code = 1; op.val = 1 / pow(10, op.scale_from); op.want = apply(which, forward, op.val); }
            op.tol = fabs(op.want) * 1e-4 + fabs(pairs[which].add) * 1e-7 + 0.51 * pow(10, -op.scale_to);
            // no room: not judged here
            if (fabs(op.want) * pow(10, op.scale_to) > 1.9e9) { op.kind = 0; op.tol = fabs(op.want) * 1e-4 + fabs(pairs[which].add) * 1e-7; }
            break;
        }
    }
    return op;
}

// Run it; the result is a number
double perform(const Op& op)
{
    // the names may be anywhere, and what was there before something else
    char from[32], to[32];
    snprintf(from, 32, "%s", op.from.c_str());
    snprintf(to, 32, "%s", op.to.c_str());
    switch (op.kind)
    {
        case 0: case 1: case 8: return convert_units(from, to, op.val);
        case 2: return op.from.empty() ? convert_octants_to_degrees(op.code) : convert_units("octants", "DEGREE TRUE", op.code);
        case 3: return op.from.empty() ? convert_degrees_to_octants(op.val) : convert_units("DEGREE TRUE", "octants", op.val);
        case 4: return op.there_and_back ? codes[op.code].back((int)op.val) : codes[op.code].to((int)op.val);
        case 5: return op.code == 0 ? convert_BUFR08001_to_BUFR08042((unsigned)op.val) : op.code == 1 ? convert_BUFR08042_to_BUFR08001((unsigned)op.val) : convert_AOFVSS_to_BUFR08042((unsigned)op.val);
        case 6: return convert_icao_to_press(op.val);
        case 7: return convert_press_to_icao(op.val);
        case 9:
        {
            _Varinfo a, b;
            a.set_bufr(WR_VAR(0, 63, 1), "SOURCE", op.from.c_str(), op.scale_from, 10, INT_MIN / 2, 32);
            b.set_bufr(WR_VAR(0, 63, 2), "DESTINATION", op.to.c_str(), op.scale_to, 10, INT_MIN / 2, 32);
            Var src(&a);
            src.seti(op.code);
            Var dst(&b, src);
            return dst.enqd();
        }
    }
    return 0;
}

void judge(const Op& op, const Out& o, double got, const char* who)
{
    if (op.fails)
    {
        if (o.ok()) violation("not-refused", "%s: %s: gives %.10g instead of an error", who, op.str().c_str(), got);
        if (o.kind != Kind::Error) violation("error-kind", "%s: %s: %s", who, op.str().c_str(), o.str().c_str());
        count("probe.refused");
        return;
    }
    if (!o.ok()) violation("failed", "%s: %s: %s", who, op.str().c_str(), o.str().c_str());
    if (!(fabs(got - op.want) <= op.tol)) violation("wrong", "%s: %s: gives %.10g instead of %.10g", who, op.str().c_str(), got, op.want);
    switch (op.kind)
    {
        case 0: count("probe.unit"); break;
        case 2: case 3: count("probe.direction"); break;
        case 4: count("probe.code"); break;
        case 5: count("probe.level"); break;
        case 9: count("probe.variable"); break;
        default: break;
    }
    if (op.kind == 0 && op.there_and_back)
    {
        double back = 0;
        Out r = call([&] { back = convert_units(op.to.c_str(), op.from.c_str(), got); });
        if (!r.ok()) violation("failed", "%s: %s and back: %s", who, op.str().c_str(), r.str().c_str());
        if (!(fabs(back - op.val) <= fabs(op.val) * 1e-4 + 1e-3 * (op.from == "C/10" || op.to == "C/10" || op.from == "C" || op.from == "K")))
            violation("not-back", "%s: %s and back gives %.10g", who, op.str().c_str(), back);
        count("probe.there_and_back");
    }
}

void run_p23()
{
    alloc::record_sites(true);
    unsigned n = 1 + draw(3, "threads");
    std::vector<std::vector<Op>> work(n);
    for (auto& w: work)
    {
        unsigned k = 1 + draw(8, "operations");
        for (unsigned i = 0; i < k; ++i) w.push_back(draw_op());
    }
    hash_bytes(&n, sizeof n);
    for (auto& w: work) for (auto& op: w) { std::string s = op.str(); hash_bytes(s.data(), s.size()); ev("%s", s.c_str()); }
    // what a process keeps once it has done all this, one after the other
    std::string quiet = in_fork([&] {
        alloc::Mark m = alloc::mark();
        for (auto& w: work) for (auto& op: w) call([&] { perform(op); });
        return std::to_string(alloc::mark().live_objs - m.live_objs);
    });
    int64_t keeps = atoll(quiet.c_str());
    alloc::Mark before = alloc::mark();
    if (n == 1)
    {
        for (auto& op: work[0])
        {
            bool starve = chance(1, 2, "starve");
            if (starve)
            {
                double got = 0;
                alloc::Mark m = alloc::mark();
                alloc::fail_at(1 + draw(chance(1, 2, "late") ? 400 : 12, "alloc-fail-at"), chance(1, 3, "sticky"));
                Out o = call([&] { got = perform(op); });
                bool fired = alloc::fired();
                alloc::disarm();
                if (fired) fault("fault.allocation");
                ev("%s%s: %s", op.str().c_str(), fired ? " (out of memory)" : "", o.ok() ? "ok" : "failed");
                if (o.kind == Kind::BadAlloc)
                {
                    if (!fired) violation("error-kind", "%s: out of memory, but there was enough", op.str().c_str());
                    if (alloc::mark().live_objs != m.live_objs) violation("leak", "%s: %lld objects remain after running out of memory %s", op.str().c_str(), (long long)(alloc::mark().live_objs - m.live_objs), alloc::describe_live_since(m.seq).c_str());
                    count("probe.out_of_memory");
                }
                else judge(op, o, got, "with little memory");
            }
            double got = 0;
            Out o = call([&] { got = perform(op); });
            judge(op, o, got, "alone");
        }
    } else {
        std::vector<std::function<void()>> tasks;
        for (auto& w: work)
            tasks.push_back([&w] {
                for (auto& op: w)
                {
                    double got = 0;
                    Out o = call([&] { got = perform(op); });
                    judge(op, o, got, "among threads");
                    yield_point("next");
                }
            });
        bool pre = chance(2, 3, "preempt");
        if (pre) { set_preempt(true); count("probe.preempted"); }
        run_tasks(tasks, 1, 2);
        set_preempt(false);
        count("probe.threads");
    }
    int64_t kept = alloc::mark().live_objs - before.live_objs;
    if (kept > keeps) violation("leak", "%lld objects are kept, one use after the other keeps %lld %s", (long long)kept, (long long)keeps, alloc::describe_live_since(before.seq).c_str());
    nontrivial();
}

}

SIM_SCENARIO(P23, nullptr, run_p23)
