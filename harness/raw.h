// Bit-exact reference datasets of every type: data kept as raw typed slabs along the unlimited (last) dimension.
#ifndef VF_RAW_H_
#define VF_RAW_H_
#include "vfx.h"
#include <cstring>
#include <netcdf.h>

namespace vf {
template <class T> DataPtr mk(const std::vector<T>& v) { auto a = make_shared_array<T>(v.size()); std::copy(v.begin(), v.end(), a.get()); return createData(v.size(), a); }
template <class T> DataPtr rndI(Rng& r, size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) {
        const int k = r.below(6);
        x = k == 0 ? std::numeric_limits<T>::min() : k == 1 ? std::numeric_limits<T>::max() : k == 2 ? T(r.u64()) : T(r.below(100));
    }
    return mk(v);
}
template <class T> DataPtr rndF(Rng& r, size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) {
        const int k = r.below(8);
        if (k == 0) x = std::numeric_limits<T>::max();
        else if (k == 1) x = r.chance(0.5) ? -std::numeric_limits<T>::min() : std::numeric_limits<T>::denorm_min();
        else if (k == 2) x = r.chance(0.2) ? std::numeric_limits<T>::quiet_NaN() : r.chance(0.2) ? (r.chance(0.5) ? -1 : 1) * std::numeric_limits<T>::infinity() : T(-0.);
        else if (k == 3) x = T(r.uni() * 1e-7);
        else if (k == 4) x = T(r.range(-1000, 1000)) / 3;
        else if (k == 5) x = T(1e9) * T(r.uni());
        else x = T(r.uni() * 360);
    }
    return mk(v);
}
inline const sv& rawWords()
{
    static const sv w = {"a", "hello", "x&y", "<tag>", "it's", "a b", " lead", "trail ", "a,b", "blåbær", "tab\there", "two\nlines", "0", "-", "æ/ø\\å", "K", "m s-1"};
    return w;
}
inline DataPtr rndRaw(Rng& r, CDMDataType t, size_t n)
{
    switch (t) {
    case CDM_CHAR: return rndI<char>(r, n);
    case CDM_SHORT: return rndI<short>(r, n);
    case CDM_INT: return rndI<int>(r, n);
    case CDM_INT64: return rndI<long long>(r, n);
    case CDM_UCHAR: return rndI<unsigned char>(r, n);
    case CDM_USHORT: return rndI<unsigned short>(r, n);
    case CDM_UINT: return rndI<unsigned int>(r, n);
    case CDM_UINT64: return rndI<unsigned long long>(r, n);
    case CDM_FLOAT: return rndF<float>(r, n);
    case CDM_DOUBLE: return rndF<double>(r, n);
    case CDM_STRINGS: { sv v(n); for (auto& x : v) { x = r.chance(0.1) ? "" : r.pick(rawWords()); if (r.chance(0.3)) x += r.pick(rawWords()); } return mk(v); }
    default: { std::string s; while (s.size() < n) s += r.pick(rawWords()); return createData(s.substr(0, n)); } // may cut a multi-byte character: bytes are bytes
    }
}
//! type, size and the exact bytes
inline std::string dstr(const DataPtr& d)
{
    if (!d) return "null";
    std::ostringstream o;
    o << datatype2string(d->getDataType()) << '[' << d->size() << "]";
    if (d->getDataType() == CDM_STRING) o << '\'' << d->asString() << '\'';
    else if (d->getDataType() == CDM_STRINGS) { auto a = d->asStrings(); for (size_t i = 0; i < d->size(); ++i) o << '\'' << a[i] << '\''; }
    else {
        const unsigned char* p = (const unsigned char*)d->getDataPtr();
        const size_t n = d->size() * d->bytes_for_one();
        std::string s(2 * n, '0');
        for (size_t i = 0; i < n; ++i) { s[2 * i] = "0123456789abcdef"[p[i] >> 4]; s[2 * i + 1] = "0123456789abcdef"[p[i] & 15]; }
        o << s;
    }
    return o.str();
}
inline DataPtr joinRaw(CDMDataType t, const std::vector<DataPtr>& parts)
{
    if (t == CDM_STRING) { std::string s; for (auto& p : parts) s += p->asString(); return createData(s); }
    if (t == CDM_STRINGS) { sv v; for (auto& p : parts) { auto a = p->asStrings(); v.insert(v.end(), a.get(), a.get() + p->size()); } return mk(v); }
    size_t n = 0, o = 0;
    for (auto& p : parts) n += p->size();
    DataPtr d = createData(t, n);
    for (auto& p : parts) { memcpy((char*)d->getDataPtr() + o, p->getDataPtr(), p->size() * p->bytes_for_one()); o += p->size() * p->bytes_for_one(); }
    return d;
}
struct RawVar { std::string name; CDMDataType type; sv shape; bool rec; std::vector<DataPtr> slab; };
//! a dataset whose data are given slab by slab; observes the requests
class RawReader : public CDMReader
{
public:
    std::vector<RawVar> vars;
    std::function<void(const std::string&, size_t)> onRead;
    CDM& cdm() { return *cdm_; }
    RawVar& var(const std::string& n) { for (auto& v : vars) if (v.name == n) return v; throw CDMException("harness: no variable " + n); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override
    {
        if (onRead) onRead(n, pos);
        RawVar& v = var(n);
        if (v.rec && pos >= v.slab.size()) return createData(v.type, 0);
        DataPtr d = v.slab.at(v.rec ? pos : 0);
        return d ? d->clone() : d;
    }
    DataPtr whole(const std::string& n) { RawVar& v = var(n); return joinRaw(v.type, v.slab); }
};
struct RawOpt { bool text = true, strings = true, wide = true; int maxVars = 6; size_t maxLen = 5; bool attrs = true; };
inline std::string rawName(Rng& r, std::set<std::string>& used)
{
    static const sv a = {"temp", "x_wind", "A", "b2", "Zz", "data-1", "var.one", "_hidden", "µ", "blåbær", "with space", "at@sign", "long_name_with_many_characters_0123456789", "n+m", "t2m", "precipitation_amount"};
    std::string n;
    do { n = r.pick(a); if (r.chance(0.5)) n += std::to_string(r.below(100)); } while (!used.insert(n).second);
    return n;
}
inline DataPtr rawAtt(Rng& r, const RawOpt& o)
{
    std::vector<CDMDataType> t = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_STRING, CDM_STRING, CDM_STRING};
    if (o.wide) t.insert(t.end(), {CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64});
    if (o.strings) t.push_back(CDM_STRINGS);
    const CDMDataType k = r.pick(t);
    return rndRaw(r, k, k == CDM_STRING ? r.below(12) : r.range(1, 4));
}
inline std::shared_ptr<RawReader> rndRawReader(Rng& r, const RawOpt& o)
{
    auto rd = std::make_shared<RawReader>();
    std::set<std::string> dn, vn;
    sv dims;
    const int nd = r.range(1, 4);
    for (int i = 0; i < nd; ++i) { dims.push_back(rawName(r, dn)); rd->cdm().addDimension(CDMDimension(dims.back(), r.range(1, o.maxLen))); }
    std::string un;
    if (r.chance(0.7)) { un = rawName(r, dn); CDMDimension d(un, r.range(1, o.maxLen)); d.setUnlimited(true); rd->cdm().addDimension(d); }
    std::vector<CDMDataType> t = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE};
    if (o.text) t.push_back(CDM_STRING);
    if (o.wide) t.insert(t.end(), {CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64});
    if (o.strings) t.push_back(CDM_STRINGS);
    auto attrs = [&](const std::string& ns) {
        std::set<std::string> an;
        for (int k = r.below(4); k > 0; --k) rd->cdm().addAttribute(ns, CDMAttribute(rawName(r, an), rawAtt(r, o)));
    };
    const int nv = r.range(1, o.maxVars);
    for (int i = 0; i < nv; ++i) {
        RawVar v;
        v.name = r.chance(0.2) && !vn.count(dims[0]) ? dims[0] : rawName(r, vn);
        vn.insert(v.name);
        v.type = r.pick(t);
        size_t slab = 1;
        if (v.name == dims[0]) { v.shape = {dims[0]}; slab = rd->cdm().getDimension(dims[0]).getLength(); v.rec = false; }
        else {
            sv d = dims;
            r.shuffle(d);
            d.resize(r.below(std::min<size_t>(d.size(), 3) + 1));
            v.shape = d;
            for (auto& s : d) slab *= rd->cdm().getDimension(s).getLength();
            v.rec = !un.empty() && r.chance(0.5);
            if (v.rec) v.shape.push_back(un);
        }
        const size_t n = v.rec ? rd->cdm().getDimension(un).getLength() : 1;
        for (size_t k = 0; k < n; ++k) v.slab.push_back(rndRaw(r, v.type, slab));
        rd->vars.push_back(v);
        rd->cdm().addVariable(CDMVariable(v.name, v.type, v.shape));
        if (o.attrs) attrs(v.name);
        if (r.chance(0.3) && v.type != CDM_STRINGS) rd->cdm().addAttribute(v.name, CDMAttribute("_FillValue", rndRaw(r, v.type, 1)));
        if (r.chance(0.2) && v.type != CDM_STRINGS && v.type != CDM_STRING) { rd->cdm().addAttribute(v.name, CDMAttribute("scale_factor", 0.25)); rd->cdm().addAttribute(v.name, CDMAttribute("add_offset", -3.f)); }
        if (r.chance(0.2)) rd->cdm().addAttribute(v.name, CDMAttribute("units", "m"));
    }
    if (o.attrs) attrs("_GLOBAL");
    return rd;
}
inline std::string oneLine(std::string s) { for (char& ch : s) if (ch == '\n') ch = '~'; return s; }
//! canonical description of the metadata
inline std::string canonMeta(const CDM& cdm, bool usedDimsOnly)
{
    std::set<std::string> l;
    for (auto& d : cdm.getDimensions()) {
        if (usedDimsOnly && !cdm.testDimensionInUse(d.getName())) continue;
        l.insert("dim " + d.getName() + " " + std::to_string(d.getLength()) + (d.isUnlimited() ? "*" : ""));
    }
    for (auto& v : cdm.getVariables()) l.insert("var " + v.getName() + " " + datatype2string(v.getDataType()) + " " + vstr(v.getShape()));
    for (auto& va : cdm.getAttributes()) for (auto& a : va.second) l.insert(oneLine("att " + va.first + " " + a.getName() + " " + dstr(a.getData())));
    std::string o;
    for (auto& x : l) o += x + "\n";
    return o;
}
// ---- the same description straight from the netCDF C library
struct NcErr { std::string what; };
inline void ncOk(int s, const std::string& w) { if (s != NC_NOERR) throw NcErr{w + ": " + nc_strerror(s)}; }
inline CDMDataType ncT(nc_type t)
{
    switch (t) {
    case NC_BYTE: return CDM_CHAR; case NC_CHAR: return CDM_STRING; case NC_SHORT: return CDM_SHORT; case NC_INT: return CDM_INT; case NC_FLOAT: return CDM_FLOAT; case NC_DOUBLE: return CDM_DOUBLE;
    case NC_UBYTE: return CDM_UCHAR; case NC_USHORT: return CDM_USHORT; case NC_UINT: return CDM_UINT; case NC_INT64: return CDM_INT64; case NC_UINT64: return CDM_UINT64; case NC_STRING: return CDM_STRINGS;
    }
    return CDM_NAT;
}
inline DataPtr ncRaw(nc_type t, size_t n, const std::function<int(void*)>& get)
{
    if (t == NC_CHAR) { std::string s(n, 0); ncOk(get(&s[0]), "text"); return createData(s); }
    if (t == NC_STRING) { std::vector<char*> p(n, nullptr); ncOk(get(p.data()), "strings"); sv v; for (char* q : p) v.push_back(q ? q : ""); nc_free_string(n, p.data()); return mk(v); }
    DataPtr d = createData(ncT(t), n);
    if (n) ncOk(get(d->getDataPtr()), "values");
    return d;
}
struct NcContent { std::string meta; std::map<std::string, DataPtr> data; int format = 0; };
inline NcContent ncContent(const std::string& file)
{
    NcContent c;
    int id;
    ncOk(nc_open(file.c_str(), NC_NOWRITE, &id), "open");
    struct Closer { int i; ~Closer() { nc_close(i); } } closer{id};
    ncOk(nc_inq_format(id, &c.format), "format");
    std::set<std::string> l;
    int nd, nv, na, nu, un[20];
    ncOk(nc_inq(id, &nd, &nv, &na, nullptr), "inq");
    ncOk(nc_inq_unlimdims(id, &nu, un), "unlim");
    sv dn;
    char b[NC_MAX_NAME + 1];
    for (int i = 0; i < nd; ++i) {
        size_t len;
        ncOk(nc_inq_dim(id, i, b, &len), "dim");
        dn.push_back(b);
        l.insert("dim " + dn.back() + " " + std::to_string(len) + (std::find(un, un + nu, i) != un + nu ? "*" : ""));
    }
    auto atts = [&](int v, const std::string& ns, int n) {
        for (int k = 0; k < n; ++k) {
            char an[NC_MAX_NAME + 1];
            nc_type t;
            size_t len;
            ncOk(nc_inq_attname(id, v, k, an), "attname");
            ncOk(nc_inq_att(id, v, an, &t, &len), "att");
            l.insert(oneLine("att " + ns + " " + an + " " + dstr(ncRaw(t, len, [&](void* p) { return nc_get_att(id, v, an, p); }))));
        }
    };
    for (int v = 0; v < nv; ++v) {
        nc_type t;
        int vd, dims[NC_MAX_VAR_DIMS], vna;
        ncOk(nc_inq_var(id, v, b, &t, &vd, dims, &vna), "var");
        const std::string name = b;
        sv shape;
        size_t n = 1;
        for (int i = vd - 1; i >= 0; --i) { size_t len; shape.push_back(dn[dims[i]]); nc_inq_dimlen(id, dims[i], &len); n *= len; }
        l.insert("var " + name + " " + datatype2string(ncT(t)) + " " + vstr(shape));
        atts(v, name, vna);
        c.data[name] = ncRaw(t, n, [&](void* p) { return nc_get_var(id, v, p); });
    }
    atts(NC_GLOBAL, "_GLOBAL", na);
    for (auto& x : l) c.meta += x + "\n";
    return c;
}
} // namespace vf
#endif
