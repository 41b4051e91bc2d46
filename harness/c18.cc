// C18: aggregation (joinExisting, joinNew, union) vs a reference concatenation/union of the member datasets.
#include "vfx.h"
#include <fimex/AggregationReader.h>
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/FileUtils.h>
#include <fimex/XMLInputString.h>
#include <fimex/XMLInputFile.h>
#include <regex>
using namespace vf;

enum { JE, JN, UN };
static const char* tn[] = {"joinExisting", "joinNew", "union"};

struct Agg
{
    std::map<std::string, Dim> dims;
    struct AV { CDMDataType t; sv shape; dv val; bool join; };
    std::map<std::string, AV> vars;
};
struct Work { std::vector<Dataset> m; int type; std::set<std::string> J; double fill = -77; };

static const sv pool = {"a", "b", "c", "d", "e"};

static bool hasDim(const Dataset& d, const std::string& n) { for (auto& x : d.dims) if (x.name == n) return true; return false; }

static Work make(Ctx& c, bool files)
{
    Rng& r = c.r;
    Work w;
    w.type = r.below(3);
    const size_t n = r.range(1, 5);
    const size_t lx = r.range(1, 3), ly = r.range(1, 3), lz = r.range(1, 3), lt = r.range(1, 4);
    std::map<std::string, CDMDataType> type;
    std::map<std::string, sv> shape;
    for (auto& v : pool) {
        type[v] = r.pick({CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE});
        sv s;
        if (r.chance(0.5)) s.push_back("x");
        if (r.chance(0.5)) s.push_back("y");
        if (r.chance(0.2)) s.push_back("z");
        if (r.chance(0.6)) s.push_back("t");
        shape[v] = s;
        if (r.chance(0.5)) w.J.insert(v);
    }
    for (size_t i = 0; i < n; ++i) {
        Dataset d;
        d.addDim("x", lx);
        d.addDim("y", i > 0 && r.chance(0.1) ? ly + 1 : ly);
        if (i > 0 || r.chance(0.5)) d.addDim("z", lz);
        const bool hasT = r.chance(w.type == JE ? 0.9 : 0.95) || i == 0;
        size_t tl = w.type == JE ? (r.chance(0.1) && !files ? 0 : r.range(1, 4)) : (i > 0 && r.chance(0.1) ? lt + 1 : lt);
        if (hasT) d.addDim("t", tl, true);
        for (auto& v : pool) {
            if (!r.chance(0.75)) continue;
            sv s = shape[v];
            if (i > 0 && r.chance(0.05)) { if (s.empty()) s.push_back("x"); else s.erase(s.begin()); }
            bool ok = true;
            for (auto& k : s) { bool h = false; for (auto& dd : d.dims) h |= dd.name == k; ok &= h; }
            if (!ok) continue;
            Var& x = d.add(v, r.chance(0.95) ? type[v] : CDM_DOUBLE, s);
            const double off = 1000 * (i + 1) + 50 * (v[0] - 'a');
            for (size_t k = 0; k < x.val.size(); ++k) x.val[k] = off + k;
        }
        if (files && i == 0) { // unused dimensions are not part of a file
            Var& x = d.add("pin", CDM_DOUBLE, {"x", "y", "t"});
            fillUnique(x, r);
            if (hasDim(d, "z")) { Var& z = d.add("pinz", CDM_DOUBLE, {"z"}); fillUnique(z, r); }
        }
        if (files && hasT) { // a file has no records without record variables
            bool used = false;
            for (auto& x : d.vars) used |= !x.shape.empty() && x.shape.back() == "t";
            if (!used) d.dim("t").len = 0;
        }
        for (auto& x : d.vars) d.att(x.name, "_FillValue", x.type, {w.fill});
        for (auto& x : d.vars) d.att(x.name, "member", std::to_string(i));
        w.m.push_back(d);
    }
    c.d << tn[w.type] << " J=" << vstr(sv(w.J.begin(), w.J.end())) << " |";
    for (auto& d : w.m) c.d << " [" << d.str() << "]";
    return w;
}

static Agg reference(const Work& w)
{
    Agg a;
    auto full = [&](const std::string& dim) { return a.dims.at(dim).len; };
    // total length of the joined dimension
    size_t total = 0;
    for (auto& d : w.m) total += w.type == JE ? (hasDim(d, "t") ? d.dim("t").len : 0) : 1;
    for (size_t i = 0; i < w.m.size(); ++i) {
        const Dataset& d = w.m[i];
        if (i == 0) {
            for (auto& x : d.dims) { a.dims[x.name] = x; if (w.type == JN) a.dims[x.name].unlim = false; }
            if (w.type == JN) a.dims["new"] = Dim{"new", total, true};
            if (w.type == JE && a.dims.count("t")) a.dims["t"].len = total;
        }
        for (auto& v : d.vars) {
            if (a.vars.count(v.name)) continue;
            const bool join = w.type == JE ? !v.shape.empty() && v.shape.back() == "t" : w.type == JN ? !!w.J.count(v.name) : false;
            bool ok = true;
            for (auto& k : v.shape) {
                if (join && w.type == JE && k == "t") continue;
                if (!a.dims.count(k)) { if (!join && d.dim(k).unlim) { ok = false; } continue; }
                if (a.dims[k].len != d.dim(k).len) ok = false;
                if (!join && i > 0 && a.dims[k].unlim != d.dim(k).unlim) ok = false;
            }
            if (!ok) continue;
            for (auto& k : v.shape) if (!a.dims.count(k)) { a.dims[k] = d.dim(k); if (w.type == JN) a.dims[k].unlim = false; }
            Agg::AV x;
            x.t = v.type; x.shape = v.shape; x.join = join;
            if (!join) x.val = v.val;
            else {
                if (w.type == JN) x.shape.push_back("new");
                size_t slab = 1;
                for (auto& k : v.shape) if (!(w.type == JE && k == "t")) slab *= full(k);
                for (auto& m : w.m) {
                    const size_t cnt = w.type == JE ? (hasDim(m, "t") ? m.dim("t").len : 0) : 1;
                    bool match = m.hasVar(v.name) && m.var(v.name).shape == v.shape;
                    if (match) for (auto& k : v.shape) if (!(w.type == JE && k == "t") && m.dim(k).len != full(k)) match = false;
                    if (match) x.val.insert(x.val.end(), m.var(v.name).val.begin(), m.var(v.name).val.end());
                    else x.val.insert(x.val.end(), cnt * slab, w.fill);
                }
            }
            a.vars[v.name] = x;
        }
    }
    return a;
}

static void verify(Ctx& c, CDMReader_p rd, const Agg& a, const Work& w, bool random)
{
    const CDM& cdm = rd->getCDM();
    for (auto& av : a.vars) {
        const std::string& n = av.first;
        const Agg::AV& x = av.second;
        const std::string k = std::string(tn[w.type]) + (x.join ? ":joined" : ":union");
        VCHECK(c, cdm.hasVariable(n), k + ":variable-missing", n);
        const CDMVariable& v = cdm.getVariable(n);
        VCHECK(c, v.getShape() == x.shape, k + ":shape", n << " " << vstr(v.getShape()) << " expected " << vstr(x.shape));
        VCHECK(c, v.getDataType() == x.t, k + ":type", n);
        szv lens;
        for (auto& s : x.shape) {
            VCHECK(c, cdm.hasDimension(s), k + ":dimension-missing", s);
            const size_t l = cdm.getDimension(s).getLength();
            VCHECK(c, l == a.dims.at(s).len, k + ":dimension-length", s << " " << l << " expected " << a.dims.at(s).len);
            VCHECK(c, !!cdm.getDimension(s).isUnlimited() == a.dims.at(s).unlim, k + ":unlimited", s);
            lens.push_back(l);
        }
        VCHECK(c, x.val.size() == prod(lens), "harness", n);
        expectData(c, k + ":getData", rd->getData(n), x.val, 0, n);
        const bool u = !x.shape.empty() && a.dims.at(x.shape.back()).unlim;
        if (u) {
            const size_t slab = prod(szv(lens.begin(), lens.end() - 1));
            for (size_t p = 0; p < lens.back(); ++p) expectData(c, k + ":slice", rd->getDataSlice(n, p), dv(x.val.begin() + p * slab, x.val.begin() + (p + 1) * slab), 0, n + " pos " + std::to_string(p));
            c.cnt("slabs", lens.back());
        }
        for (int i = 0; i < 3 && random && x.val.size(); ++i) {
            SliceBuilder sb(cdm, n);
            szv st, sz;
            for (size_t j = 0; j < lens.size(); ++j) {
                st.push_back(c.r.below(lens[j]));
                sz.push_back(c.r.range(1, lens[j] - st[j]));
                sb.setStartAndSize(x.shape[j], st[j], sz[j]);
            }
            expectData(c, k + ":box", rd->getDataSlice(n, sb), box(x.val, lens, st, sz), 0, n + " start " + vstr(st) + " size " + vstr(sz));
            c.cnt("boxes");
        }
        c.cnt(k);
    }
    for (auto& v : cdm.getVariables()) if (v.getName() != "new") VCHECK(c, a.vars.count(v.getName()), std::string(tn[w.type]) + ":extra-variable", v.getName());
}

static void direct(Ctx& c)
{
    Work w = make(c, false);
    const bool useMem = c.r.chance(0.3);
    auto agg = std::make_shared<AggregationReader>(tn[w.type]);
    if (w.type == JN) agg->joinNewVars("new", w.J);
    const bool cv = c.r.chance(0.4);
    std::vector<double> coords;
    std::vector<std::shared_ptr<MemReader>> rds;
    for (size_t i = 0; i < w.m.size(); ++i) {
        auto m = std::make_shared<MemReader>(w.m[i], c.r.chance(0.5));
        if (useMem) for (auto& v : w.m[i].vars) if (c.r.chance(0.5)) m->inMemory(v.name);
        rds.push_back(m);
        std::string cvs;
        if (w.type == JN && cv) { coords.push_back(c.r.range(-50, 50) / 4.); std::ostringstream o; o << coords.back(); cvs = o.str(); }
        agg->addReader(m, "m" + std::to_string(i), cvs);
    }
    agg->initAggregation();
    c.sig(c.d.str()).sig(useMem);
    const Agg a = reference(w);
    verify(c, agg, a, w, true);
    if (!coords.empty()) {
        VCHECK(c, agg->getCDM().hasVariable("new"), "joinNew:coordinate-missing", "");
        expectData(c, "joinNew:coordinate", agg->getData("new"), coords);
        for (size_t i = 0; i < coords.size(); ++i) expectData(c, "joinNew:coordinate-slice", agg->getDataSlice("new", i), dv{coords[i]});
    }
    // members are not changed by aggregating them
    for (size_t i = 0; i < rds.size(); ++i) {
        CDM k;
        w.m[i].fillCDM(k);
        VCHECK(c, cdmStr(k) == cdmStr(rds[i]->getCDM()), "member-changed", firstDiff(cdmStr(k), cdmStr(rds[i]->getCDM())));
    }
}

static void ncml(Ctx& c)
{
    Work w = make(c, true);
    const bool scan = c.r.chance(0.4), coordV = !scan && w.type == JE && c.r.chance(0.3);
    std::ostringstream x;
    x << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n<aggregation " << (w.type == JE ? "dimName=\"t\" " : w.type == JN ? "dimName=\"new\" " : "") << "type=\"" << tn[w.type] << "\">\n";
    if (w.type == JN) for (auto& v : w.J) x << "<variableAgg name=\"" << v << "\"/>\n";
    const std::string dir = c.file("agg" + std::to_string(c.idx));
    mkdir(dir.c_str(), 0777);
    if (scan) { mkdir((dir + "/sub").c_str(), 0777); }
    for (size_t i = 0; i < w.m.size(); ++i) {
        const std::string f = dir + (scan && i + 1 == w.m.size() && c.r.chance(0.5) ? "/sub" : "") + "/m" + std::to_string(i) + ".nc";
        unlink(f.c_str());
        CDMFileReaderFactory::createWriter(std::make_shared<MemReader>(w.m[i]), c.r.pick({"nc3", "nc4"}), f);
        if (!scan) x << "<netcdf location=\"" << f << "\"/>\n";
    }
    if (scan) {
        FILE* junk = fopen((dir + "/m1.txt").c_str(), "w");
        fputs("not netcdf", junk);
        fclose(junk);
        x << "<scan location=\"" << dir << "\" " << (c.r.chance(0.5) ? "suffix=\".nc\"" : "regExp=\".*\\.nc\"") << (c.r.chance(0.5) ? " subdirs=\"true\"" : "") << "/>\n";
    }
    x << "</aggregation>\n</netcdf>\n";
    c.sig(c.d.str()).sig(scan);
    (void)coordV;
    CDMReader_p rd = [&] { const std::string f = c.file("agg" + std::to_string(c.idx) + ".ncml"); FILE* o = fopen(f.c_str(), "w"); fputs(x.str().c_str(), o); fclose(o); return CDMFileReaderFactory::create("ncml", f); }();
    verify(c, rd, reference(w), w, true);
    c.cnt(scan ? "ncml_scan" : "ncml_list");
}

//! directory scans: exactly the matching files, in name order
static void glob(Ctx& c)
{
    Rng& r = c.r;
    const std::string root = c.file("g" + std::to_string(c.idx));
    mkdir(root.c_str(), 0777);
    std::vector<std::string> all;
    std::function<void(const std::string&, int)> mk = [&](const std::string& rel, int depth) {
        const int nf = r.range(0, 3), nd = depth < 2 ? r.range(0, 3) : 0;
        for (int i = 0; i < nf; ++i) {
            const std::string f = rel + r.pick<std::string>({"a", "b", "ab", "c.x", "q"}) + r.pick<std::string>({".nc", ".grb", "", ".nc4"});
            if (std::find(all.begin(), all.end(), f) != all.end()) continue;
            FILE* o = fopen((root + "/" + f).c_str(), "w");
            if (!o) continue;
            fclose(o);
            all.push_back(f);
        }
        for (int i = 0; i < nd; ++i) {
            const std::string d = rel + "d" + std::to_string(i) + "/";
            mkdir((root + "/" + d).c_str(), 0777);
            mk(d, depth + 1);
        }
    };
    mk("", 0);
    auto path = [&](const std::string& f) { return root + "/" + f; };
    if (r.chance(0.5)) {
        const std::string pat = r.pick<std::string>({"*.nc", "*", "*/*.nc", "d1/*", "**.nc", "*/d?/*", "d?/*.nc", "a.??", "**/b*", "*/*/*.grb"});
        if (pat == "d1/*") mkdir((root + "/d1").c_str(), 0777);
        c.d << "glob " << pat << " files " << vstr(all, 40);
        c.sig(c.d.str());
        // reference matcher
        std::function<bool(const char*, const char*)> m = [&](const char* p, const char* s) -> bool {
            if (!*p) return !*s;
            if (p[0] == '*' && p[1] == '*') { for (const char* q = s;; ++q) { if (m(p + 2, q)) return true; if (!*q) return false; } }
            if (*p == '*') { for (const char* q = s;; ++q) { if (m(p + 1, q)) return true; if (!*q || *q == '/') return false; } }
            if (*p == '?') return *s && *s != '/' && m(p + 1, s + 1);
            return *p == *s && m(p + 1, s + 1);
        };
        std::set<std::string> want;
        for (auto& f : all) if (m(pat.c_str(), f.c_str())) want.insert(path(f));
        sv got;
        globFiles(got, root + "/" + pat);
        VCHECK(c, std::set<std::string>(got.begin(), got.end()) == want && got.size() == want.size(), "glob", "got " << vstr(got, 40) << " expected " << vstr(sv(want.begin(), want.end()), 40));
        c.cnt("glob_matches", want.size());
    } else {
        const int depth = r.range(-1, 2);
        const std::string re = r.pick<std::string>({".*\\.nc", ".*", "a.*", ".*\\.nc$"});
        c.d << "scan " << re << " depth " << depth << " files " << vstr(all, 40);
        c.sig(c.d.str());
        std::set<std::string> want;
        for (auto& f : all) {
            const int dd = std::count(f.begin(), f.end(), '/');
            if (depth >= 0 && dd > depth) continue;
            if (std::regex_match(f.substr(f.rfind('/') == std::string::npos ? 0 : f.rfind('/') + 1), std::regex(re))) want.insert(path(f));
        }
        sv got;
        scanFiles(got, root, depth, std::regex(re), true);
        VCHECK(c, std::set<std::string>(got.begin(), got.end()) == want && got.size() == want.size(), "scan", "got " << vstr(got, 40) << " expected " << vstr(sv(want.begin(), want.end()), 40));
        // within one directory the order is by name
        for (size_t i = 1; i < got.size(); ++i) {
            const auto d1 = got[i - 1].substr(0, got[i - 1].rfind('/')), d2 = got[i].substr(0, got[i].rfind('/'));
            if (d1 == d2) VCHECK(c, got[i - 1] < got[i], "scan:order", vstr(got, 40));
        }
        c.cnt("scan_matches", want.size());
    }
}

VF_MAIN("C18", "aggregation equals reference concatenation / union of members", {"direct", direct, 4000, 60000}, {"ncml", ncml, 250, 3000}, {"glob", glob, 300, 3000})
