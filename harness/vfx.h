// fimex side of the monitor framework: in-memory reference datasets and readers.
#ifndef VFX_H_
#define VFX_H_
#include "vf.h"
#include <atomic>
#include <fimex/CDM.h>
#include <fimex/CDMAttribute.h>
#include <fimex/CDMDimension.h>
#include <fimex/CDMException.h>
#include <fimex/CDMReader.h>
#include <fimex/CDMVariable.h>
#include <fimex/Data.h>
#include <fimex/Logger.h>
#include <fimex/SliceBuilder.h>

namespace vf {
using namespace MetNoFimex;
typedef std::vector<size_t> szv;
typedef std::vector<double> dv;
typedef std::vector<std::string> sv;

struct NullLogger : LoggerImpl
{
    bool isEnabledFor(Logger::LogLevel) override { return false; }
    void log(Logger::LogLevel, const std::string&, const char*, unsigned int) override {}
};
struct NullLoggerClass : LoggerClass
{
    LoggerImpl* loggerFor(Logger*, const std::string&) override { return new NullLogger; }
};
struct QuietLog { QuietLog() { if (!getenv("VF_LOG")) Logger::setClass(new NullLoggerClass); } };

inline const std::vector<CDMDataType>& numTypes()
{
    static const std::vector<CDMDataType> t = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64};
    return t;
}
inline bool isInt(CDMDataType t) { return t != CDM_FLOAT && t != CDM_DOUBLE && t != CDM_STRING && t != CDM_STRINGS && t != CDM_NAT; }
inline void typeLimits(CDMDataType t, double& lo, double& hi)
{
    switch (t) {
    case CDM_CHAR: lo = -128; hi = 127; break;
    case CDM_UCHAR: lo = 0; hi = 255; break;
    case CDM_SHORT: lo = -32768; hi = 32767; break;
    case CDM_USHORT: lo = 0; hi = 65535; break;
    case CDM_INT: lo = -2147483648.; hi = 2147483647.; break;
    case CDM_UINT: lo = 0; hi = 4294967295.; break;
    case CDM_INT64: lo = -9007199254740992.; hi = 9007199254740992.; break; // exactly representable in double
    case CDM_UINT64: lo = 0; hi = 9007199254740992.; break;
    case CDM_FLOAT: lo = -1e30; hi = 1e30; break;
    default: lo = -1e300; hi = 1e300;
    }
}

inline DataPtr mkData(CDMDataType t, const dv& v)
{
    return createData(t, v.begin(), v.end());
}
inline dv toD(const DataPtr& d)
{
    dv r;
    if (!d)
        return r;
    auto a = d->asDouble();
    r.assign(a.get(), a.get() + d->size());
    return r;
}

struct Dim { std::string name; size_t len; bool unlim; };
struct Var
{
    std::string name;
    CDMDataType type;
    sv shape; //!< first = fastest
    dv val;   //!< raw values, full variable
};

inline size_t prod(const szv& v) { size_t p = 1; for (size_t x : v) p *= x; return p; }

//! reference gather: out[first dim fastest] = in[idx[d][...]]
inline dv gather(const dv& in, const szv& dims, const std::vector<szv>& idx)
{
    szv n;
    for (auto& i : idx) n.push_back(i.size());
    dv out(prod(n));
    szv p(n.size(), 0);
    for (size_t o = 0; o < out.size(); ++o) {
        size_t off = 0, stride = 1;
        for (size_t d = 0; d < dims.size(); ++d) { off += idx[d][p[d]] * stride; stride *= dims[d]; }
        out[o] = in[off];
        for (size_t d = 0; d < n.size(); ++d) { if (++p[d] < n[d]) break; p[d] = 0; }
    }
    return out;
}
inline szv iota(size_t n, size_t s = 0) { szv r(n); for (size_t i = 0; i < n; ++i) r[i] = s + i; return r; }
inline dv box(const dv& in, const szv& dims, const szv& start, const szv& size)
{
    std::vector<szv> idx;
    for (size_t i = 0; i < dims.size(); ++i) idx.push_back(iota(size[i], start[i]));
    return gather(in, dims, idx);
}

struct Dataset
{
    std::vector<Dim> dims;
    std::vector<Var> vars;
    std::vector<std::pair<std::string, CDMAttribute>> attrs;
    const Dim& dim(const std::string& n) const { for (auto& d : dims) if (d.name == n) return d; throw std::logic_error("harness: no dim " + n); }
    Dim& dim(const std::string& n) { for (auto& d : dims) if (d.name == n) return d; throw std::logic_error("harness: no dim " + n); }
    const Var& var(const std::string& n) const { for (auto& v : vars) if (v.name == n) return v; throw std::logic_error("harness: no var " + n); }
    Var& var(const std::string& n) { for (auto& v : vars) if (v.name == n) return v; throw std::logic_error("harness: no var " + n); }
    bool hasVar(const std::string& n) const { for (auto& v : vars) if (v.name == n) return true; return false; }
    szv lens(const Var& v) const { szv l; for (auto& s : v.shape) l.push_back(dim(s).len); return l; }
    void addDim(const std::string& n, size_t l, bool u = false) { dims.push_back(Dim{n, l, u}); }
    Var& add(const std::string& n, CDMDataType t, const sv& shape) { Var v; v.name = n; v.type = t; v.shape = shape; v.val.resize(prod(lens(v))); vars.push_back(v); return vars.back(); }
    Var& add(const std::string& n, CDMDataType t, const sv& shape, const dv& val)
    {
        Var& v = add(n, t, shape);
        if (v.val.size() != val.size()) throw std::logic_error("harness: size mismatch for " + n);
        v.val = val;
        return v;
    }
    void att(const std::string& v, const std::string& n, const std::string& val) { attrs.push_back(std::make_pair(v, CDMAttribute(n, val))); }
    void att(const std::string& v, const std::string& n, CDMDataType t, const dv& val) { attrs.push_back(std::make_pair(v, CDMAttribute(n, mkData(t, val)))); }
    std::string str() const
    {
        std::ostringstream o;
        for (auto& d : dims) o << d.name << (d.unlim ? "*" : "") << '=' << d.len << ' ';
        o << ';';
        for (auto& v : vars) { o << ' ' << datatype2string(v.type) << ' ' << v.name << '('; for (auto& s : v.shape) o << s << ' '; o << ')'; }
        return o.str();
    }
    void fillCDM(CDM& cdm) const
    {
        for (auto& d : dims) { CDMDimension x(d.name, d.len); x.setUnlimited(d.unlim); cdm.addDimension(x); }
        for (auto& v : vars) cdm.addVariable(CDMVariable(v.name, v.type, v.shape));
        for (auto& a : attrs) cdm.addAttribute(a.first, a.second);
    }
};

//! reader over a Dataset; data are produced freshly for every request (nothing is stored in the CDM)
class MemReader : public CDMReader
{
public:
    Dataset ds;
    //! additionally attach the data of this variable to the CDM (as coordinate variables often are)
    void inMemory(const std::string& v) { cdm_->getVariable(v).setData(mkData(ds.var(v).type, ds.var(v).val)); }
    bool directSlice = false; //!< answer SliceBuilder requests directly instead of the base class algorithm
    std::atomic<long> requests{0};
    std::function<void(const std::string&, size_t)> onRead;
    std::set<std::pair<std::string, size_t>> missing; //!< positions of the unlimited dimension without data: empty slices, read as fill values (not with directSlice)
    //! the dataset as it reads: fill values at the missing positions
    dv withMissing(const std::string& n, double fill) const
    {
        const Var& v = ds.var(n);
        dv w = v.val;
        const size_t len = ds.dim(v.shape.back()).len, slab = w.size() / len;
        for (size_t p = 0; p < len; ++p) if (missing.count({n, p})) std::fill(w.begin() + p * slab, w.begin() + (p + 1) * slab, fill);
        return w;
    }
    explicit MemReader(const Dataset& d, bool direct = false) : ds(d), directSlice(direct) { ds.fillCDM(*cdm_); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& varName, size_t pos) override
    {
        requests.fetch_add(1, std::memory_order_relaxed);
        if (onRead) onRead(varName, pos);
        // stages may rename/extend the internal CDM of their own copy, never of this reader
        const Var& v = ds.var(varName);
        const szv l = ds.lens(v);
        if (!l.empty() && ds.dim(v.shape.back()).unlim) {
            if (pos >= l.back() || missing.count({varName, pos})) return createData(v.type, 0);
            szv st(l.size(), 0), sz = l;
            st.back() = pos;
            sz.back() = 1;
            return mkData(v.type, box(v.val, l, st, sz));
        }
        return mkData(v.type, v.val);
    }
    DataPtr getDataSlice(const std::string& varName, const SliceBuilder& sb) override
    {
        if (!directSlice) return CDMReader::getDataSlice(varName, sb);
        requests.fetch_add(1, std::memory_order_relaxed);
        if (onRead) onRead(varName, 0);
        const Var& v = ds.var(varName);
        if (v.shape.empty()) return mkData(v.type, v.val);
        return mkData(v.type, box(v.val, ds.lens(v), sb.getDimensionStartPositions(), sb.getDimensionSizes()));
    }
};

inline void expectVals(Ctx& c, const std::string& key, const dv& got, const dv& want, double tol = 0, const std::string& info = "")
{
    VCHECK(c, got.size() == want.size(), key + ":size", info << " size " << got.size() << " expected " << want.size());
    for (size_t i = 0; i < got.size(); ++i)
        if (!close(got[i], want[i], tol))
            VCHECK(c, false, key + ":value", info << " at " << i << " got " << got[i] << " expected " << want[i] << "; got=" << vstr(got) << " expected=" << vstr(want));
    c.checks++;
}
inline void expectData(Ctx& c, const std::string& key, const DataPtr& got, const dv& want, double tol = 0, const std::string& info = "")
{
    VCHECK(c, !!got, key + ":null", info);
    expectVals(c, key, toD(got), want, tol, info);
}

//! canonical text of a CDM (for before/after comparison)
inline std::string attrStr(const CDMAttribute& a)
{
    std::ostringstream o;
    o.precision(17);
    o << a.getName() << ':' << datatype2string(a.getDataType()) << '=';
    DataPtr d = a.getData();
    if (!d) o << "null";
    else if (a.getDataType() == CDM_STRING || a.getDataType() == CDM_STRINGS) o << a.getStringValue();
    else o << vstr(toD(d), 100000);
    return o.str();
}
inline std::string cdmStr(const CDM& cdm)
{
    std::ostringstream o;
    std::set<std::string> l;
    for (auto& d : cdm.getDimensions()) { std::ostringstream s; s << "dim " << d.getName() << ' ' << d.getLength() << (d.isUnlimited() ? "*" : ""); l.insert(s.str()); }
    for (auto& v : cdm.getVariables()) { l.insert("var " + v.getName() + " " + datatype2string(v.getDataType()) + " " + vstr(v.getShape())); }
    for (auto& va : cdm.getAttributes()) for (auto& a : va.second) l.insert("att " + va.first + " " + attrStr(a));
    for (auto& x : l) o << x << '\n';
    return o.str();
}
inline std::string firstDiff(const std::string& a, const std::string& b)
{
    std::set<std::string> A, B;
    std::string s;
    std::istringstream ia(a), ib(b);
    while (std::getline(ia, s)) A.insert(s);
    while (std::getline(ib, s)) B.insert(s);
    std::string o;
    for (auto& x : A) if (!B.count(x)) o += "-" + x + " ";
    for (auto& x : B) if (!A.count(x)) o += "+" + x + " ";
    return o.substr(0, 1500);
}
template <class F> bool throws(F f)
{
    try { f(); } catch (std::exception&) { return true; }
    return false;
}

inline void fillUnique(Var& v, Rng& r);
//! random dataset: 1-4 dimensions (possibly one unlimited), some variables of random shape (dimension order kept) and type
inline Dataset randDataset(Rng& r, size_t maxLen = 5, bool allowUnlim = true, bool shuffleShape = false)
{
    static const char* N[] = {"x", "y", "z", "e"};
    Dataset ds;
    const size_t nd = r.range(1, 4);
    for (size_t i = 0; i < nd; ++i) ds.addDim(N[i], r.range(1, maxLen));
    const bool unlim = allowUnlim && r.chance(0.6);
    if (unlim) ds.addDim("t", r.range(1, maxLen), true);
    const size_t nv = r.range(1, 3);
    for (size_t v = 0; v < nv; ++v) {
        sv shape;
        for (size_t i = 0; i < nd; ++i) if (r.chance(0.75)) shape.push_back(N[i]);
        if (shuffleShape) r.shuffle(shape);
        if (unlim && r.chance(0.7)) shape.push_back("t");
        Var& x = ds.add("v" + std::to_string(v), r.pick(numTypes()), shape);
        fillUnique(x, r);
    }
    return ds;
}
//! integer-valued distinct payload: unique per element so any misplaced value is visible
inline void fillUnique(Var& v, Rng& r)
{
    double lo, hi;
    typeLimits(v.type, lo, hi);
    const long n = v.val.size();
    if (v.type == CDM_CHAR || v.type == CDM_UCHAR) {
        // small range: cyclic pattern with odd stride
        const long off = r.below(100), st = 2 * r.below(50) + 1;
        for (long i = 0; i < n; ++i) v.val[i] = (i * st + off) % 120;
    } else {
        const long off = r.below(1000);
        for (long i = 0; i < n; ++i) v.val[i] = off + i;
    }
}
} // namespace vf
#define VF_MAIN(ID, RULE, ...)                                                                                                                                 \
    int main(int argc, char** argv)                                                                                                                             \
    {                                                                                                                                                           \
        vf::QuietLog ql;                                                                                                                                        \
        return vf::run(argc, argv, ID, RULE, std::vector<vf::Family>{__VA_ARGS__});                                                                             \
    }
#endif
