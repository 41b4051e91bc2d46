// Random felt files with matching reader configurations and the expected contents.
#ifndef VF_FELTWORLD_H_
#define VF_FELTWORLD_H_
#include "feltgen.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/XMLInputString.h>
#include <fimex/XMLInputFile.h>
using namespace vf;
namespace {
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

struct P
{
    std::string name, id;
    fword param, vcoord, prod = 88, dtype = 3;
    bool eps = false, idLevel = false;
    CDMDataType type = CDM_SHORT;
    bool hasFill = false;
    double fill = -32767, confScale = 1;
    bool hasConfScale = false;
    fword scale = 0;
    // contents: (valid time, level1, level2/member) -> field number
    std::map<std::tuple<long long, int, int>, size_t> at;
    std::set<long long> times;
    std::set<std::pair<int, int>> levels; //!< member = 0 for ensembles
    std::set<int> members;
    bool timeless = false;
};
std::string levDim(int v) { return v == 10 ? "k" : "lev" + std::to_string(v); }
int hybB(int l1, int l2) { return (l1 * 37 + l2 * 11) % 9000; }

struct World
{
    FeltFileSpec ff;
    FGrid grid;
    std::vector<P> ps;
    std::string cfg, timeUnit;
    double unitSecs, unitEpoch;
    std::string timeType;
    std::set<long long> refs;
};

World rndWorld(Ctx& c, bool big)
{
    Rng& r = c.r;
    World w;
    w.grid = rndFGrid(r, big ? 260 : r.chance(0.1) ? 40 : 9);
    if (big) { w.grid.nx = r.range(150, 260); w.grid.ny = r.range(150, 260); }
    w.ff.bigEndian = r.chance(0.5);
    w.ff.packed = r.chance(0.6);
    if (r.chance(0.03)) w.ff.gapBlocks = r.range(32700, 70000);
    const FTime ref0{(int)r.range(1980, 2040), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.range(0, 23), r.chance(0.2) ? (int)r.range(0, 59) : 0};
    const bool twoRefs = r.chance(0.2);
    FTime ref1 = ref0;
    ref1.h = (ref0.h + 6) % 24;
    const std::string globalRestr = r.chance(0.2) ? "prod=88" : "";
    const int np = big ? r.range(1, 2) : r.range(1, 5);
    std::set<int> usedParams;
    std::ostringstream vars;
    const bool deltaOpt = r.chance(0.3);
    for (int i = 0; i < np; ++i) {
        P p;
        p.name = "var" + std::to_string(i);
        p.eps = r.chance(0.25);
        do p.param = p.eps ? r.range(2000, 5999) : r.range(1, 900); while (!usedParams.insert(p.param).second);
        p.vcoord = p.eps ? r.pick({1, 2, 3, 8, 5}) : r.pick({1, 2, 2, 3, 8, 10, 10, 12, 5, 0});
        p.type = r.pick({CDM_SHORT, CDM_SHORT, CDM_FLOAT, CDM_DOUBLE});
        p.hasFill = p.type != CDM_SHORT || r.chance(0.7);
        if (p.hasFill) p.fill = p.type == CDM_SHORT ? r.pick({-32767., 32767., -32768.}) : r.pick({-32767., 1e20, -9999., 9.9692099683868690e+36});
        if (p.type == CDM_FLOAT) p.fill = (float)p.fill;
        p.scale = r.chance(0.3) ? 0 : r.range(-6, 3);
        if (p.type == CDM_SHORT && r.chance(0.3)) { p.hasConfScale = true; p.confScale = r.pick({0.5, 2., 0.25}); }
        // levels
        const int nl = big ? 1 : r.range(1, 4);
        std::vector<std::pair<int, int>> lev;
        std::set<int> l1s;
        while ((int)l1s.size() < nl) l1s.insert(p.vcoord == 2 && r.chance(0.6) ? r.pick({1000, 850, 500, 300}) : r.range(0, 1000));
        for (int l : l1s) lev.push_back({l, p.vcoord == 10 ? (l * 7) % 500 : 0});
        std::vector<int> mem(1, 0);
        if (p.eps) { mem.clear(); std::set<int> m; const int n = r.range(1, 4); while ((int)m.size() < n) m.insert(r.range(0, 50)); mem.assign(m.begin(), m.end()); }
        // times
        std::set<int> steps;
        const int nt = big ? 2 : r.range(1, 5);
        while ((int)steps.size() < nt) steps.insert(r.chance(0.1) ? r.range(-30, 3000) : r.range(0, 12));
        if (r.chance(0.25)) { p.dtype = 4; if (r.chance(0.7)) while (steps.size() > 1) steps.erase(steps.begin()); }
        // id in the configuration
        std::ostringstream id;
        id << p.param;
        if (r.chance(0.8)) {
            id << ',' << p.vcoord;
            if (nl == 1 && r.chance(0.4)) { id << ',' << lev[0].first; p.idLevel = true; }
        }
        bool restrict = false;
        if (globalRestr.empty() && r.chance(0.3)) { id << ":prod=88"; restrict = true; }
        p.id = id.str();
        // config
        vars << "<parameter id=\"" << p.id << "\" name=\"" << p.name << "\"" << (p.type == CDM_SHORT ? (r.chance(0.5) ? " type=\"short\"" : "") : p.type == CDM_FLOAT ? " type=\"float\"" : " type=\"double\"") << ">\n";
        if (p.hasFill) vars << "<attribute name=\"_FillValue\" value=\"" << num(p.fill) << "\" type=\"" << datatype2string(p.type) << "\"/>\n";
        if (p.hasConfScale) vars << "<attribute name=\"scale_factor\" value=\"" << num(p.confScale) << "\" type=\"float\"/>\n";
        vars << "<attribute name=\"units\" value=\"u" << i << "\" type=\"string\"/>\n</parameter>\n";
        // fields
        for (int s : steps)
            for (auto& l : lev)
                for (int m : mem) {
                    if (r.chance(0.12) && !(s == *steps.begin() && l == lev[0])) continue;
                    FField f;
                    f.prod = p.prod; f.param = p.param; f.vcoord = p.vcoord; f.dtype = p.dtype; f.step = s;
                    f.lev1 = l.first; f.lev2 = p.eps ? m : l.second;
                    f.ref = twoRefs && r.chance(0.3) ? ref1 : ref0;
                    f.misc = p.vcoord == 10 ? hybB(l.first, l.second) : r.range(0, 100);
                    f.scale = p.type == CDM_SHORT ? p.scale : p.scale + r.range(0, 1);
                    f.grid = w.grid;
                    w.ff.fields.push_back(f);
                    if (restrict || !globalRestr.empty()) { if (r.chance(0.3)) { f.prod = 74; w.ff.fields.push_back(f); } }
                    if (p.idLevel && r.chance(0.3)) { f.lev1 += 1; f.prod = p.prod; w.ff.fields.push_back(f); }
                    if (r.chance(0.06)) { f.prod = p.prod; f.lev1 = l.first; f.dtype = 2; w.ff.fields.push_back(f); } // analysis replaces/replaced by
                }
        w.ps.push_back(p);
    }
    for (int k = r.below(4); k > 0; --k) { // parameters unknown to the configuration
        FField f;
        f.param = r.range(901, 999); f.grid = w.grid; f.ref = ref1; f.step = r.range(0, 90); f.vcoord = 77;
        w.ff.fields.push_back(f);
    }
    r.shuffle(w.ff.fields);
    for (int k = r.chance(0.3) ? r.range(1, 40) : 0; k > 0; --k) { FField h; h.hole = true; h.grid = w.grid; h.param = w.ps[0].param; w.ff.fields.insert(w.ff.fields.begin() + r.below(w.ff.fields.size() + 1), h); }
    for (auto& f : w.ff.fields) {
        if (f.hole) continue;
        f.val.resize((size_t)w.grid.nx * w.grid.ny);
        const double pm = r.chance(0.5) ? 0 : r.uni(0, 0.4);
        for (auto& v : f.val) v = r.chance(pm) ? -32767 : r.chance(0.05) ? r.pick({-32766, 32766, 0, 1, -1}) : r.range(-32766, 32766);
    }
    // configuration
    switch (r.below(3)) {
    case 0: w.timeUnit = "seconds since 1970-01-01 00:00:00 +00:00"; w.unitSecs = 1; w.unitEpoch = 0; break;
    case 1: w.timeUnit = "hours since 2000-01-01 00:00:00"; w.unitSecs = 3600; w.unitEpoch = 946684800.; break;
    default: w.timeUnit = "days since 1970-01-01 00:00:00"; w.unitSecs = 86400; w.unitEpoch = 0;
    }
    std::ostringstream o;
    o << "<?xml version=\"1.0\"?>\n<cdm_felt_config>\n<processOptions>\n";
    if (!globalRestr.empty()) o << "<option name=\"globalParameterRestrictions\" value=\"" << globalRestr << "\"/>\n";
    if (deltaOpt) o << "<option name=\"gridParameterDelta\" value=\"0.001 0.001 0.001 0.001 0.001 0.001\"/>\n";
    o << "</processOptions>\n<global_attributes><attribute name=\"Conventions\" value=\"CF-1.0\" type=\"string\"/></global_attributes>\n<axes>\n"
      << "<time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"units\" value=\"" << w.timeUnit << "\" type=\"string\"/></time>\n";
    for (int t = 1; t <= 6; ++t)
        for (const char* ax : {"x", "y"}) {
            const bool x = *ax == 'x';
            const std::string nm = t == 2 ? (x ? "longitude" : "latitude") : t == 3 ? (x ? "rlon" : "rlat") : ax;
            o << "<spatial_axis projection_felt_id=\"" << t << "\" id=\"" << ax << "\" name=\"" << nm << "\" type=\"float\"><attribute name=\"units\" value=\"" << (t == 2 ? (x ? "degrees_east" : "degrees_north") : t == 3 ? "degrees" : "m")
              << "\" type=\"string\"/><attribute name=\"standard_name\" value=\"" << (t == 2 ? (x ? "longitude" : "latitude") : t == 3 ? (x ? "grid_longitude" : "grid_latitude") : x ? "projection_x_coordinate" : "projection_y_coordinate") << "\" type=\"string\"/></spatial_axis>\n";
        }
    o << "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>\n";
    for (int v : {0, 1, 2, 3, 5, 8, 12}) o << "<vertical_axis id=\"" << levDim(v) << "\" name=\"" << levDim(v) << "\" felt_id=\"" << v << "\" type=\"" << (v == 12 ? "double" : "short") << "\"/>\n";
    o << "<vertical_axis id=\"k\" name=\"k\" felt_id=\"10\" type=\"double\"><values mode=\"hybridSigmaCalc(ap,b)\"/>"
         "<additional_axis_variable name=\"ap\" type=\"double\" axis=\"k\"><values mode=\"level2\" scale_factor=\"10\"/></additional_axis_variable>"
         "<additional_axis_variable name=\"b\" type=\"double\" axis=\"k\"><values mode=\"hybridLevels\" scale_factor=\"0.0001\"/></additional_axis_variable></vertical_axis>\n";
    o << "</axes>\n<variables>\n" << vars.str() << "</variables>\n</cdm_felt_config>\n";
    w.cfg = o.str();
    // expected contents
    for (size_t i = 0; i < w.ff.fields.size(); ++i) {
        const FField& f = w.ff.fields[i];
        if (f.hole) continue;
        for (P& p : w.ps) {
            if (f.param != p.param) continue;
            if (f.vcoord != p.vcoord) continue;
            if (f.prod != p.prod) { if (!globalRestr.empty() || p.id.find(":prod=") != std::string::npos) continue; }
            if (p.idLevel) { const std::string s = p.id.substr(0, p.id.find(':')); if (atoi(s.substr(s.rfind(',') + 1).c_str()) != f.lev1) continue; }
            const auto key = std::make_tuple(f.valid(), (int)f.lev1, (int)f.lev2);
            auto it = p.at.find(key);
            if (it != p.at.end() && w.ff.fields[it->second].dtype == f.dtype) throw Skip(); // several fields for one place: refused by the reader
            p.at[key] = i;
            p.times.insert(f.valid());
            p.levels.insert({f.lev1, p.eps ? 0 : f.lev2});
            if (p.eps) p.members.insert(f.lev2);
        }
    }
    w.ps.erase(std::remove_if(w.ps.begin(), w.ps.end(), [](const P& p) { return p.at.empty(); }), w.ps.end());
    if (w.ps.empty()) throw Skip();
    for (P& p : w.ps) {
        // the first field of the parameter in the file tells whether it is a parameter field without time
        size_t first = SIZE_MAX;
        for (size_t i = 0; i < w.ff.fields.size() && first == SIZE_MAX; ++i) {
            const FField& f = w.ff.fields[i];
            if (f.hole || f.param != p.param || f.vcoord != p.vcoord) continue;
            if (f.prod != p.prod && (!globalRestr.empty() || p.id.find(":prod=") != std::string::npos)) continue;
            if (p.idLevel) { const std::string s = p.id.substr(0, p.id.find(':')); if (atoi(s.substr(s.rfind(',') + 1).c_str()) != f.lev1) continue; }
            first = i;
        }
        p.timeless = p.times.size() == 1 && w.ff.fields[first].dtype == 4;
        for (auto& a : p.at) { const FTime& t = w.ff.fields[a.second].ref; w.refs.insert(t.epoch()); }
    }
    return w;
}
} // namespace
#endif
