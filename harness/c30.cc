// C30: fill-writing into an existing NetCDF file vs an index model of the file; the file is made and inspected with the netCDF library directly.
#include "vfx.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/CDMReaderWriter.h>
#include <fimex/FillWriter.h>
#include <fstream>
#include <netcdf.h>
using namespace vf;

#define NC(call) do { int e_ = (call); if (e_ != NC_NOERR) throw std::logic_error(std::string("harness: " #call ": ") + nc_strerror(e_)); } while (0)

static nc_type ncT(CDMDataType t) { return t == CDM_CHAR ? NC_BYTE : t == CDM_SHORT ? NC_SHORT : t == CDM_INT ? NC_INT : t == CDM_FLOAT ? NC_FLOAT : t == CDM_INT64 ? NC_INT64 : t == CDM_USHORT ? NC_USHORT : NC_DOUBLE; }
static double defFill(CDMDataType t) { return t == CDM_CHAR ? NC_FILL_BYTE : t == CDM_SHORT ? NC_FILL_SHORT : t == CDM_INT ? NC_FILL_INT : t == CDM_FLOAT ? NC_FILL_FLOAT : t == CDM_INT64 ? (double)NC_FILL_INT64 : t == CDM_USHORT ? NC_FILL_USHORT : NC_FILL_DOUBLE; }

struct MV { CDMDataType t; sv shape; double fill; std::map<szv, double> val; double scale = 1, offset = 0; }; // val: as stored in the file
struct Model { std::vector<Dim> dims; std::map<std::string, MV> vars; std::map<std::string, dv> coord;
    Dim& dim(const std::string& n) { for (auto& d : dims) if (d.name == n) return d; throw std::logic_error("harness: dim " + n); }
    bool hasDim(const std::string& n) { for (auto& d : dims) if (d.name == n) return true; return false; } };

static void forAll(const szv& len, const std::function<void(const szv&)>& f)
{
    for (size_t l : len) if (l == 0) return;
    szv i(len.size(), 0);
    while (true) {
        f(i);
        size_t k = 0;
        for (; k < len.size(); ++k) { if (++i[k] < len[k]) break; i[k] = 0; }
        if (k == len.size()) return;
    }
}
static szv rev(szv v) { std::reverse(v.begin(), v.end()); return v; }

static void create(const std::string& file, const Model& m, bool nc4)
{
    int nc, id;
    std::map<std::string, int> dimid, varid;
    NC(nc_create(file.c_str(), nc4 ? NC_NETCDF4 : NC_64BIT_OFFSET, &nc));
    for (auto& d : m.dims) { NC(nc_def_dim(nc, d.name.c_str(), d.unlim ? NC_UNLIMITED : d.len, &id)); dimid[d.name] = id; }
    for (auto& v : m.vars) {
        std::vector<int> ids;
        for (size_t i = v.second.shape.size(); i-- > 0;) ids.push_back(dimid[v.second.shape[i]]);
        NC(nc_def_var(nc, v.first.c_str(), ncT(v.second.t), ids.size(), ids.data(), &id));
        varid[v.first] = id;
        NC(nc_put_att_text(nc, id, "note", v.first.size(), v.first.c_str()));
        if (v.second.fill != defFill(v.second.t)) NC(nc_put_att_double(nc, id, "_FillValue", ncT(v.second.t), 1, &v.second.fill));
        if (v.second.scale != 1) NC(nc_put_att_double(nc, id, "scale_factor", NC_DOUBLE, 1, &v.second.scale));
        if (v.second.offset != 0) NC(nc_put_att_double(nc, id, "add_offset", NC_DOUBLE, 1, &v.second.offset));
    }
    NC(nc_put_att_text(nc, NC_GLOBAL, "title", 5, "hello"));
    NC(nc_enddef(nc));
    for (auto& v : m.vars) for (auto& x : v.second.val) { const szv s = rev(x.first); NC(nc_put_var1_double(nc, varid[v.first], s.data(), &x.second)); }
    NC(nc_close(nc));
}

struct Src { std::vector<Dim> dims; std::map<std::string, dv> coord; };

static void fill(Ctx& c)
{
    Rng& r = c.r;
    const bool nc4 = r.chance(0.5);
    const std::string file = c.file("target.nc");
    Model m;
    auto coordVals = [&](size_t n, bool frac) { std::set<double> s; while (s.size() < n) s.insert(r.range(1, 12) / (frac ? 8. : 1.)); dv v(s.begin(), s.end()); if (r.chance(0.3)) r.shuffle(v); return v; };
    std::vector<CDMDataType> types = {CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_CHAR};
    if (nc4) { types.push_back(CDM_INT64); types.push_back(CDM_USHORT); }
    auto addDim = [&](const std::string& n, size_t l, bool u, bool coord) {
        m.dims.push_back(Dim{n, l, u});
        if (!coord) return;
        const CDMDataType t = r.pick({CDM_DOUBLE, CDM_FLOAT, CDM_INT});
        m.coord[n] = coordVals(l, t != CDM_INT && r.chance(0.5));
        MV v{t, {n}, defFill(t), {}};
        for (size_t i = 0; i < l; ++i) v.val[{i}] = m.coord[n][i];
        m.vars[n] = v;
    };
    addDim("x", r.range(1, 3), false, r.chance(0.5));
    addDim("z", r.range(1, 5), false, r.chance(0.85));
    if (r.chance(0.3)) addDim("k", r.range(1, 3), false, r.chance(0.5));
    const bool hasT = r.chance(0.9);
    // (fimex knows one unlimited dimension only)
    if (hasT) addDim("t", r.below(5), true, r.chance(0.85));
    sv dn;
    for (auto& d : m.dims) dn.push_back(d.name);
    const int nv = r.range(1, 5);
    for (int i = 0; i < nv; ++i) {
        MV v;
        v.t = r.pick(types);
        v.fill = r.chance(0.5) ? defFill(v.t) : 99;
        for (auto& d : dn) if (r.chance(0.6) && !(d == "t" || d == "e")) v.shape.push_back(d);
        if (r.chance(0.2)) r.shuffle(v.shape);
        if (m.hasDim("e") && r.chance(0.4)) v.shape.push_back("e");
        if (hasT && r.chance(0.7)) v.shape.push_back("t");
        if (r.chance(0.4)) { v.scale = r.pick({0.5, 2., 0.125}); v.offset = r.pick({0., 10., -4.}); }
        m.vars["v" + std::to_string(i)] = v;
    }
    int n = 1;
    for (auto& vv : m.vars) if (!m.coord.count(vv.first) && r.chance(0.8)) {
        szv l;
        for (auto& s : vv.second.shape) l.push_back(m.dim(s).len);
        forAll(l, [&](const szv& i) { vv.second.val[i] = n++ % 90; });
    }
    // a written variable in a record file makes the records exist; keep the record count well defined
    for (auto& d : m.dims) if (d.unlim && d.len > 0 && !m.coord.count(d.name)) {
        bool any = false;
        for (auto& vv : m.vars) for (auto& x : vv.second.val) for (size_t k = 0; k < vv.second.shape.size(); ++k) any = any || (vv.second.shape[k] == d.name && x.first[k] + 1 == d.len);
        if (!any) d.len = 0;
    }
    for (auto& vv : m.vars) for (size_t k = 0; k < vv.second.shape.size(); ++k) // nothing beyond a shrunk dimension
        for (auto it = vv.second.val.begin(); it != vv.second.val.end();) { if (it->first[k] >= m.dim(vv.second.shape[k]).len) it = vv.second.val.erase(it); else ++it; }
    create(file, m, nc4);
    c.d << (nc4 ? "nc4 " : "nc3 ");
    for (auto& d : m.dims) c.d << d.name << (d.unlim ? "*" : "") << '=' << d.len << (m.coord.count(d.name) ? vstr(m.coord[d.name]) : "") << ' ';
    for (auto& v : m.vars) c.d << v.first << vstr(v.second.shape) << ' ';

    const std::string metaBefore = cdmStr(CDMFileReaderFactory::create("netcdf", file)->getCDM());
    const int nf = r.range(1, 4);
    const bool keepOpen = r.chance(0.4);
    CDMReaderWriter_p io;
    std::string filesToKeep;
    for (int f = 0; f < nf; ++f) {
        // ---- source
        Dataset ds;
        std::map<std::string, std::vector<long>> map; // source position -> target position; -1 unusable
        std::map<std::string, dv> newCoord;
        std::map<std::string, size_t> newLen;
        bool unusable = false;
        std::string translate, trDim;
        size_t trPos = 0;
        const int trMode = r.chance(0.25) ? r.range(1, 2) : 0; // 1: output dimension only, 2: input dimension replaces output dimension
        if (trMode) {
            sv cand;
            for (auto& d : m.dims) if (!d.unlim) cand.push_back(d.name);
            trDim = r.pick(cand);
            trPos = r.below(m.dim(trDim).len);
        }
        c.d << "\nfill " << f << ": ";
        for (auto& d : m.dims) {
            if (d.name == trDim) { if (trMode == 2) { ds.addDim("q_" + trDim, r.range(1, 3)); } continue; }
            const bool tc = m.coord.count(d.name);
            newLen[d.name] = d.len;
            if (r.chance(0.08)) { c.cnt("dimension-absent"); continue; } // source has no such dimension
            const bool sc = tc ? r.chance(0.95) : r.chance(0.2);
            size_t l;
            std::vector<long>& mp = map[d.name];
            if (tc && sc) {
                dv v;
                const int how = r.below(5);
                if (d.len == 0 || (d.unlim && how == 0)) { dv a = coordVals(r.range(1, 3), false); for (double x : a) if (std::find(m.coord[d.name].begin(), m.coord[d.name].end(), x) == m.coord[d.name].end()) v.push_back(x); }
                else if (how == 1) v = m.coord[d.name]; // identical
                else { for (double x : m.coord[d.name]) if (r.chance(0.6)) v.push_back(x); if (r.chance(0.4)) r.shuffle(v); if (d.unlim && r.chance(0.5)) { double x = 100 + r.range(0, 20); v.insert(v.begin() + r.below(v.size() + 1), x); } }
                { dv u; for (double x : v) if (x != m.vars[d.name].fill) u.push_back(x); v = u; } // undefined coordinates cannot be matched
                if (v.empty()) v.push_back(d.len && m.coord[d.name][0] != m.vars[d.name].fill ? m.coord[d.name][0] : 55);
                if (!d.unlim && r.chance(0.07)) v.push_back(777); // not in the target
                newCoord[d.name] = m.coord[d.name];
                for (double x : v) {
                    auto it = std::find(m.coord[d.name].begin(), m.coord[d.name].end(), x);
                    if (it != m.coord[d.name].end()) mp.push_back(it - m.coord[d.name].begin());
                    else if (d.unlim) { mp.push_back(newLen[d.name]++); newCoord[d.name].push_back(x); c.cnt("appended"); }
                    else { mp.assign(1, -1); unusable = true; c.cnt("unknown-value"); break; }
                }
                l = v.size();
                ds.addDim(d.name, l, d.unlim && r.chance(0.7));
                ds.add(d.name, m.vars[d.name].t, {d.name}, v);
                c.d << d.name << vstr(v) << "->" << vstr(mp) << ' ';
            } else {
                l = d.unlim ? r.range(1, 3) : (r.chance(0.9) ? d.len : d.len + 1);
                if (l == 0) l = 1;
                ds.addDim(d.name, l, d.unlim && r.chance(0.7));
                if (sc) ds.add(d.name, CDM_DOUBLE, {d.name}, coordVals(l, false)); // coordinate only in the source: positions count
                if (d.unlim) { for (size_t i = 0; i < l; ++i) mp.push_back(newLen[d.name] + i); newLen[d.name] += l; if (tc) { for (size_t i = 0; i < l; ++i) newCoord[d.name].push_back(NAN); } }
                else if (l == d.len) for (size_t i = 0; i < l; ++i) mp.push_back(i);
                else { mp.assign(1, -1); unusable = true; c.cnt("wrong-length"); }
                c.d << d.name << "(no coordinate," << l << ") ";
            }
        }
        // unlimited dimensions of the source must be last: a MemReader allows exactly one
        { int u = 0; for (auto& d : ds.dims) if (d.unlim && u++) d.unlim = false; for (auto& d : ds.dims) if (d.unlim && d.name == "e" && m.hasDim("t")) d.unlim = false; }
        if (trMode) {
            std::ostringstream x;
            x << "<?xml version=\"1.0\"?><cdmFillWriter xmlns=\"http://www.met.no/schema/fimex/cdmFillWriterConfig\"><translate ";
            size_t inPos = 0;
            if (trMode == 2) { inPos = r.below(ds.dim("q_" + trDim).len); x << "inputDimension=\"q_" << trDim << "\" inputSlices=\"" << inPos << "\" "; }
            x << "outputDimension=\"" << trDim << "\" outputSlices=\"" << trPos << "\"/></cdmFillWriter>";
            translate = c.file("fill.xml");
            std::ofstream(translate) << x.str();
            map["q_" + trDim].assign(1, inPos);
            c.d << "translate mode " << trMode << ' ' << trDim << "[" << trPos << "] from " << inPos << ' ';
            c.cnt("translated");
        }
        struct W { std::string v; };
        std::map<std::string, MV> next = m.vars;
        auto put = [&](const std::string& v, const szv& at, double val) {
            MV& mv = next[v];
            mv.val[at] = val;
        };
        std::map<std::string, bool> grows;
        for (auto& d : m.dims) grows[d.name] = false;
        auto write = [&](const std::string& v, const Var& sv_) { // apply to the model
            const MV& mv = m.vars[v];
            const szv l = ds.lens(sv_);
            for (auto& s : sv_.shape) if (map.count(s) && map[s].size() == 1 && map[s][0] == -1) return;
            size_t pos = 0;
            forAll(l, [&](const szv& i) {
                szv o;
                bool skip = false;
                size_t si = 0;
                for (auto& os : mv.shape) {
                    if (trMode && os == trDim) { o.push_back(trPos); if (trMode == 2 && si < sv_.shape.size() && sv_.shape[si] == "q_" + trDim) { if ((long)i[si] != map["q_" + trDim][0]) skip = true; ++si; } }
                    else { o.push_back(map[os][i[si]]); ++si; }
                }
                if (!skip) put(v, o, sv_.val[pos]);
                ++pos;
            });
            if (pos) for (auto& os : mv.shape) if (!(trMode && os == trDim)) grows[os] = true;
            c.cnt("writes");
        };
        // coordinates are variables, too
        std::vector<std::pair<std::string, Var>> written;
        for (auto& v : ds.vars) if (m.vars.count(v.name)) { if (m.vars[v.name].shape == v.shape) written.push_back({v.name, v}); }
        for (auto& vv : m.vars) {
            if (m.coord.count(vv.first) || r.chance(0.2)) continue;
            const MV& mv = vv.second;
            sv shape;
            bool ok = true;
            for (auto& s : mv.shape) {
                if (trMode && s == trDim) { if (trMode == 2) shape.push_back("q_" + trDim); continue; }
                if (!map.count(s)) { ok = false; continue; }
                shape.push_back(s);
            }
            bool fits = ok;
            if (ok && r.chance(0.15) && !(trMode)) { // another shape than the target's variable: must not be written
                if (!shape.empty() && r.chance(0.5)) { if (ds.dim(shape.back()).unlim || r.chance(0.5)) shape.pop_back(); else shape.erase(shape.begin()); }
                else if (shape.size() >= 2 && !ds.dim(shape.back()).unlim) std::swap(shape[0], shape[1]);
                else { std::string add; for (auto& d : ds.dims) if (!d.unlim && std::find(shape.begin(), shape.end(), d.name) == shape.end()) add = d.name; if (!add.empty()) shape.insert(shape.begin(), add); }
                if (shape != mv.shape) { fits = false; c.cnt("other-shape"); }
            }
            // unlimited dimension of the source must be last
            for (size_t k = 0; k + 1 < shape.size(); ++k) if (ds.dim(shape[k]).unlim) ds.dim(shape[k]).unlim = false;
            Var& v = ds.add(vv.first, r.chance(0.7) ? mv.t : r.pick({CDM_INT, CDM_DOUBLE, CDM_FLOAT}), shape);
            for (double& x : v.val) x = n++ % 90;
            const bool missing = r.chance(0.3);
            if (missing) for (double& x : v.val) if (r.chance(0.3)) x = mv.fill;
            if (fits) written.push_back({vv.first, v});
            double ss = mv.scale, so = mv.offset, sf = mv.fill;
            if (r.chance(0.3) || (v.type != mv.t && sf == defFill(mv.t))) { // other packing, same physical values
                v.type = r.pick({CDM_SHORT, CDM_INT, CDM_DOUBLE, CDM_FLOAT});
                const int j = r.pick({1, 2, 4}), k = r.range(0, 10);
                sf = -77;
                ss = mv.scale / j;
                so = mv.offset - k * ss;
                for (double& x : v.val) x = x == mv.fill ? sf : x * j + k;
                c.cnt("repacked");
            }
            else if (r.chance(0.25)) { // only the offset differs
                const int k = r.pick({-7, 3, 5});
                so = mv.offset - k * ss;
                bool fits8 = true;
                for (double x : v.val) if (x != mv.fill && (x + k == mv.fill || x + k < 0)) fits8 = false;
                if (!fits8) so = mv.offset;
                else { for (double& x : v.val) if (x != mv.fill) x += k; c.cnt("other-offset"); }
            }
            if (ss != 1) ds.att(v.name, "scale_factor", CDM_DOUBLE, {ss});
            if (so != 0) ds.att(v.name, "add_offset", CDM_DOUBLE, {so});
            if (sf != defFill(v.type)) ds.att(v.name, "_FillValue", v.type, {sf});
            c.d << vv.first << vstr(shape) << (fits ? "" : "(no fit)") << ' ';
        }
        if (r.chance(0.3) && !ds.dims.empty() && !ds.hasVar("new")) { Var& v = ds.add("new", CDM_FLOAT, {ds.dims[0].name}); fillUnique(v, r); }
        for (auto& d : ds.dims) if (d.unlim) for (auto& v : ds.vars) for (size_t k = 0; k + 1 < v.shape.size(); ++k) if (v.shape[k] == d.name) d.unlim = false;
        for (auto& w : written) write(w.first, w.second);
        // ---- run
        CDMReader_p in(new MemReader(ds, r.chance(0.5)));
        if (r.chance(0.3)) { // from a file
            const std::string sf = c.file("src" + std::to_string(f) + ".nc");
            bool any = !ds.vars.empty(), special = false;
            for (auto& v : ds.vars) special = special || v.type == CDM_INT64 || v.type == CDM_USHORT;
            // the writer drops unused dimensions and records without variables
            for (auto& d : ds.dims) { bool used = false; for (auto& v : ds.vars) used = used || std::find(v.shape.begin(), v.shape.end(), d.name) != v.shape.end(); any = any && used; }
            if (any) { CDMFileReaderFactory::createWriter(in, special ? "nc4" : "nc3", sf); in = CDMFileReaderFactory::create("netcdf", sf); c.cnt("file-source"); }
        }
        if (!io || !keepOpen) io = CDMFileReaderFactory::createReaderWriter("netcdf", file); else c.cnt("same-writer-again");
        bool threw = false;
        try { FillWriter fw(in, io, translate); } catch (std::exception& e) { threw = true; c.d << " threw " << e.what(); }
        VCHECK(c, threw == unusable, "report", "exception " << threw << " unusable dimension " << unusable);
        if (!keepOpen) io.reset(); else io->sync();
        // ---- model after
        for (auto& d : m.dims) if (grows[d.name]) {
            if (newLen[d.name] > d.len) d.len = newLen[d.name];
            if (newCoord.count(d.name)) {
                bool own = false;
                for (auto& w : written) own = own || w.first == d.name;
                if (own) m.coord[d.name] = newCoord[d.name];
            }
        }
        m.vars = next;
        for (auto& d : m.dims) if (m.coord.count(d.name)) { // coordinate values as they are now (fill value where never written)
            m.coord[d.name].resize(d.len);
            for (size_t i = 0; i < d.len; ++i) m.coord[d.name][i] = m.vars[d.name].val.count({i}) ? m.vars[d.name].val[{i}] : m.vars[d.name].fill;
        }
        c.cnt("fills");
        if (keepOpen && f + 1 < nf && r.chance(0.5)) { // reading through the open writer sees the new data
            for (auto& vv : m.vars) {
                bool rec = false;
                szv l;
                for (auto& s : vv.second.shape) { rec = rec || m.dim(s).unlim; l.push_back(m.dim(s).len); }
                if (rec) continue;
                dv want;
                forAll(l, [&](const szv& i) { want.push_back(vv.second.val.count(i) ? vv.second.val[i] : vv.second.fill); });
                if (l.empty()) want.assign(1, vv.second.val.count({}) ? vv.second.val[{}] : vv.second.fill);
                expectData(c, "reread", io->getData(vv.first), want, 0, vv.first);
            }
        }
    }
    io.reset();
    // ---- compare the file
    int nc, id;
    NC(nc_open(file.c_str(), NC_NOWRITE, &nc));
    for (auto& d : m.dims) {
        size_t l;
        NC(nc_inq_dimid(nc, d.name.c_str(), &id));
        NC(nc_inq_dimlen(nc, id, &l));
        if (l != d.len) { nc_close(nc); VCHECK(c, false, "length", d.name << " has length " << l << " expected " << d.len); }
    }
    std::string bad;
    size_t compared = 0;
    for (auto& vv : m.vars) {
        szv l;
        for (auto& s : vv.second.shape) l.push_back(m.dim(s).len);
        NC(nc_inq_varid(nc, vv.first.c_str(), &id));
        forAll(l, [&](const szv& i) {
            double x;
            const szv s = rev(i);
            NC(nc_get_var1_double(nc, id, s.data(), &x));
            const double want = vv.second.val.count(i) ? vv.second.val[i] : vv.second.fill;
            ++compared;
            if (bad.empty() && !(std::fabs(x - want) <= 1e-6 * std::fabs(want))) { std::ostringstream o; o << vv.first << " at " << vstr(i) << " is " << x << " expected " << want; bad = o.str(); }
        });
    }
    nc_close(nc);
    VCHECK(c, bad.empty(), "value", bad);
    c.checks += compared;
    // metadata apart from record counts
    auto strip = [](std::string s) { std::istringstream i(s); std::string l, o; while (std::getline(i, l)) { if (l.compare(0, 4, "dim ") == 0 && l.back() == '*') l = l.substr(0, l.rfind(' ')); o += l + "\n"; } return o; };
    const std::string metaAfter = strip(cdmStr(CDMFileReaderFactory::create("netcdf", file)->getCDM()));
    VCHECK(c, strip(metaBefore) == metaAfter, "metadata", firstDiff(strip(metaBefore), metaAfter));
    c.sig(nc4).sig(m.vars.size()).sig(nf).sig(compared).sig(keepOpen);
    c.trivial = compared == 0;
}

//! the writing interface itself: any history of raw, scaled and unit-converting writes and reads through one open writer
static void readwrite(Ctx& c)
{
    Rng& r = c.r;
    const bool nc4 = r.chance(0.5);
    const std::string file = c.file("rw.nc");
    Model m;
    m.dims = {Dim{"x", (size_t)r.range(1, 3), false}, Dim{"z", (size_t)r.range(1, 4), false}, Dim{"t", (size_t)r.below(4), true}};
    struct U { std::string own, other; double f, o; }; // own = other * f + o
    const std::vector<U> us = {{"m", "km", 1000, 0}, {"K", "degC", 1, 273.15}, {"Pa", "hPa", 100, 0}, {"1", "%", 0.01, 0}, {"m s-1", "km/h", 1 / 3.6, 0}};
    std::map<std::string, U> unit;
    const int nv = r.range(1, 4);
    for (int i = 0; i < nv; ++i) {
        MV v;
        v.t = r.pick({CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE});
        v.fill = r.chance(0.5) ? defFill(v.t) : 99;
        if (r.chance(0.5)) v.shape.push_back("x");
        if (r.chance(0.5)) v.shape.push_back("z");
        if (r.chance(0.6)) v.shape.push_back("t");
        if (r.chance(0.6)) { v.scale = r.pick({0.5, 2., 0.125}); v.offset = r.pick({0., 10., -4.}); }
        m.vars["v" + std::to_string(i)] = v;
        unit["v" + std::to_string(i)] = r.pick(us);
    }
    int n = 1;
    for (auto& vv : m.vars) {
        szv l;
        for (auto& s : vv.second.shape) l.push_back(m.dim(s).len);
        forAll(l, [&](const szv& i) { vv.second.val[i] = n++ % 90; });
    }
    if (m.dims[2].len) { bool any = false; for (auto& vv : m.vars) any = any || (!vv.second.shape.empty() && vv.second.shape.back() == "t"); if (!any) m.dims[2].len = 0; }
    create(file, m, nc4);
    {
        int nc, id;
        NC(nc_open(file.c_str(), NC_WRITE, &nc));
        NC(nc_redef(nc));
        for (auto& u : unit) { NC(nc_inq_varid(nc, u.first.c_str(), &id)); NC(nc_put_att_text(nc, id, "units", u.second.own.size(), u.second.own.c_str())); }
        NC(nc_close(nc));
    }
    CDMReaderWriter_p io = CDMFileReaderFactory::createReaderWriter("netcdf", file);
    const int ops = r.range(1, 14);
    for (int o = 0; o < ops; ++o) {
        auto it = m.vars.begin();
        std::advance(it, r.below(m.vars.size()));
        const std::string& name = it->first;
        MV& v = it->second;
        const bool rec = !v.shape.empty() && v.shape.back() == "t";
        const bool bySb = r.chance(0.5) && !v.shape.empty();
        szv start, size, lens;
        for (auto& s : v.shape) lens.push_back(m.dim(s).len);
        SliceBuilder sb(io->getCDM(), name, true);
        size_t upos = 0;
        for (size_t k = 0; k < lens.size(); ++k) {
            const bool isT = v.shape[k] == "t";
            size_t st = 0, sz = lens[k];
            if (isT) { st = r.below(lens[k] + 1); if (r.chance(0.1)) ++st; sz = 1; upos = st; }
            else if (bySb && r.chance(0.7)) { st = r.below(lens[k]); sz = r.range(1, lens[k] - st); }
            start.push_back(st);
            size.push_back(sz);
            if (bySb) sb.setStartAndSize(v.shape[k], st, sz);
        }
        const int kind = r.below(3); // raw, scaled, scaled in another unit
        const U& u = unit[name];
        dv raw(prod(size));
        for (double& x : raw) x = r.chance(0.15) ? v.fill : r.range(0, 89);
        dv give = raw;
        CDMDataType gt = v.t;
        if (kind == 0) { if (r.chance(0.3) && v.fill == 99) gt = r.pick({CDM_INT, CDM_DOUBLE, CDM_SHORT, CDM_FLOAT}); }
        else {
            gt = r.chance(0.7) ? CDM_DOUBLE : CDM_FLOAT;
            for (double& x : give) { if (x == v.fill) { x = NAN; continue; } x = x * v.scale + v.offset; if (kind == 2) x = (x - u.o) / u.f; }
        }
        DataPtr d = mkData(gt, give);
        c.d << "\n" << name << vstr(v.shape) << " " << datatype2string(v.t) << " kind " << kind << " start " << vstr(start) << " size " << vstr(size) << " values " << vstr(give);
        if (bySb) { if (kind == 0) io->putDataSlice(name, sb, d); else if (kind == 1) io->putScaledDataSlice(name, sb, d); else io->putScaledDataSliceInUnit(name, u.other, sb, d); }
        else { if (kind == 0) io->putDataSlice(name, upos, d); else if (kind == 1) io->putScaledDataSlice(name, upos, d); else io->putScaledDataSliceInUnit(name, u.other, upos, d); }
        size_t p = 0;
        if (lens.empty()) v.val[{}] = raw[0];
        else forAll(size, [&](const szv& i) { szv at = i; for (size_t k = 0; k < at.size(); ++k) at[k] += start[k]; v.val[at] = raw[p++]; });
        if (rec && upos >= m.dim("t").len) { m.dim("t").len = upos + 1; c.cnt("rw-extended"); }
        c.cnt(kind == 0 ? "rw-raw" : kind == 1 ? "rw-scaled" : "rw-unit");
        if (r.chance(0.2)) io->sync();
        if (r.chance(0.15)) { io.reset(); io = CDMFileReaderFactory::createReaderWriter("netcdf", file); c.cnt("rw-reopened"); }
        // read something through the open writer
        auto it2 = m.vars.begin();
        std::advance(it2, r.below(m.vars.size()));
        const MV& w = it2->second;
        szv wl;
        for (auto& s : w.shape) wl.push_back(m.dim(s).len);
        dv want;
        if (wl.empty()) want.push_back(w.val.count({}) ? w.val.at({}) : w.fill);
        else forAll(wl, [&](const szv& i) { want.push_back(w.val.count(i) ? w.val.at(i) : w.fill); });
        DataPtr got = io->getData(it2->first);
        dv g = toD(got);
        VCHECK(c, g.size() == want.size(), "rw-size", it2->first << " size " << g.size() << " expected " << want.size());
        const double tol = w.t == CDM_FLOAT || w.t == CDM_DOUBLE ? 1e-2 : 0; // conversions of units are rounded
        for (size_t i = 0; i < g.size(); ++i) VCHECK(c, std::fabs(g[i] - want[i]) <= tol + 1e-6 * std::fabs(want[i]), "rw-value", it2->first << " at " << i << " got " << g[i] << " expected " << want[i]);
    }
    c.sig(nc4).sig(ops).sig(nv);
}

VF_MAIN("C30", "the file equals the index model after every sequence of writes", {"fill", fill, 3000, 60000}, {"readwrite", readwrite, 1000, 20000})
