// C34: reading is pure. Oracle: an identical twin of the view, read once in a fixed order.
#include "zoo.h"
#include <fimex/NcmlCDMWriter.h>
#include <fimex/coordSys/CoordinateSystem.h>
#include <sstream>
using namespace vf;

struct Whole { std::string name; szv len; dv val, scaled; std::string text; bool isText = false, unlim = false; CDMDataType type; };
static std::vector<Whole> snapshot(const CDMReader_p& rd)
{
    std::vector<Whole> w;
    for (auto& v : rd->getCDM().getVariables()) {
        Whole x;
        x.name = v.getName();
        x.len = varDims(rd, x.name);
        DataPtr d = rd->getData(x.name);
        if (!d) throw Violation{"null", x.name};
        x.type = d->getDataType();
        x.isText = isText(d);
        if (x.isText) x.text = d->asString();
        else { x.val = toD(d); x.scaled = toD(rd->getScaledData(x.name)); }
        x.unlim = rd->getCDM().hasUnlimitedDim(v);
        w.push_back(x);
    }
    return w;
}
//! destroy the contents of a returned array through every way a caller has
static void vandalise(Rng& r, const DataPtr& d)
{
    if (!d || isText(d) || d->size() == 0) return;
    switch (r.below(5)) {
    case 0: for (size_t i = 0; i < d->size(); ++i) d->setValue(i, 77.); break;
    case 1: d->setAllValues(13.); break;
    case 2: { DataPtr o = createData(d->getDataType(), d->size(), 5.); d->setValues(0, *o); break; }
    case 3: // the typed arrays may be shared with the data object of this request, never with another request
        if (d->getDataType() == CDM_FLOAT) { auto a = d->asFloat(); for (size_t i = 0; i < d->size(); ++i) a[i] = 99; }
        else if (d->getDataType() == CDM_DOUBLE) { auto a = d->asDouble(); for (size_t i = 0; i < d->size(); ++i) a[i] = 99; }
        else if (d->getDataType() == CDM_SHORT) { auto a = d->asShort(); for (size_t i = 0; i < d->size(); ++i) a[i] = 99; }
        else if (d->getDataType() == CDM_INT) { auto a = d->asInt(); for (size_t i = 0; i < d->size(); ++i) a[i] = 99; }
        break;
    default: { auto a = d->asDouble(); for (size_t i = 0; i < d->size(); ++i) a[i] = -1; }
    }
}
static bool wide(const Whole& w, const DataPtr& d) { return d->getDataType() != w.type && isInt(d->getDataType()) == isInt(w.type); }
static void famPure(Ctx& c)
{
    const uint64_t seed = c.r.u64();
    const std::string first = zooStages()[c.idx % zooStages().size()];
    Zoo a = zooBuild(seed, c.file("a" + std::to_string(c.idx)), 3, first), b = zooBuild(seed, c.file("b" + std::to_string(c.idx)), 3, first);
    c.d << a.desc << " " << a.ds.str();
    c.sig(a.desc);
    const std::string tag = a.desc.substr(a.desc.rfind('|') + 1);
    const std::string meta = cdmStr(b.rd->getCDM());
    VCHECK(c, meta == cdmStr(a.rd->getCDM()), tag + ":twin-metadata", firstDiff(cdmStr(a.rd->getCDM()), meta));
    const std::vector<Whole> ref = snapshot(a.rd);
    if (ref.empty()) return;
    Rng& r = c.r;
    const int ops = (c.thorough ? 120 : 40) + ref.size();
    std::vector<DataPtr> held; // arrays kept by the caller while others are read
    std::vector<std::pair<DataPtr, dv>> kept;
    for (int k = 0; k < ops; ++k) {
        const Whole& w = ref[r.below(ref.size())];
        if (w.isText) continue;
        const CDM& cdm = b.rd->getCDM();
        if (w.val.empty() && w.len.empty()) { vandalise(r, b.rd->getData(w.name)); continue; }
        double stol = 0;
        if (w.type == CDM_FLOAT) for (double v : w.scaled) if (std::fabs(v) < 1e30) stol = std::max(stol, 1e-6 * (std::fabs(v) + 300));
        const int op = r.below(9);
        DataPtr got;
        dv want;
        bool scaled = false;
        switch (op) {
        case 0: got = b.rd->getData(w.name); want = w.val; break;
        case 1: got = b.rd->getScaledData(w.name); want = w.scaled; scaled = true; break;
        case 2: case 3: case 4: {
            scaled = op == 4;
            if (w.unlim) {
                szv st(w.len.size(), 0), sz = w.len;
                if (!w.len.back()) continue;
                st.back() = r.below(w.len.back());
                sz.back() = 1;
                want = box(scaled ? w.scaled : w.val, w.len, st, sz);
                got = scaled ? b.rd->getScaledDataSlice(w.name, st.back()) : b.rd->getDataSlice(w.name, st.back());
            } else { want = scaled ? w.scaled : w.val; got = scaled ? b.rd->getScaledDataSlice(w.name, 0) : b.rd->getDataSlice(w.name, 0); }
            break;
        }
        case 5: case 6: {
            SliceBuilder sb(cdm, w.name);
            szv st(w.len.size(), 0), sz = w.len;
            const bool full = r.chance(0.3);
            for (size_t i = 0; i < w.len.size(); ++i) if (w.len[i] && !full) { st[i] = r.below(w.len[i]); sz[i] = r.range(1, w.len[i] - st[i]); sb.setStartAndSize(cdm.getVariable(w.name).getShape()[i], st[i], sz[i]); }
            scaled = op == 6;
            want = box(scaled ? w.scaled : w.val, w.len, st, sz);
            got = scaled ? b.rd->getScaledDataSlice(w.name, sb) : b.rd->getDataSlice(w.name, sb);
            break;
        }
        case 7: // failing requests leave no trace
            throws([&] { b.rd->getData("no_such_variable"); });
            if (w.unlim) throws([&] { b.rd->getDataSlice(w.name, w.len.back() + r.below(3)); });
            c.cnt("failing requests");
            continue;
        default: // other observers of the dataset
            if (r.chance(0.5)) listCoordinateSystems(b.rd);
            else if (r.chance(0.5)) { std::ostringstream o; cdm.toXMLStream(o); }
            else { double mn, mx; (void)mn; (void)mx; cdm.getFillValue(w.name); cdm.getUnits(w.name); cdm.getDimensions(); }
            c.cnt("metadata observers");
            continue;
        }
        VCHECK(c, !!got, tag + ":null", w.name);
        if (wide(w, got) && !scaled) expectVals(c, tag + ":reread", toD(mkData(w.type, toD(got))), want, 0, w.name + " operation " + std::to_string(op));
        else expectVals(c, tag + ":reread", toD(got), want, scaled ? stol : 0, w.name + " operation " + std::to_string(op));
        c.cnt("reads compared");
        const int m = r.below(4);
        if (m == 0 && kept.size() < 6) { kept.push_back({got, toD(got)}); c.cnt("arrays kept"); } // must not change by later reads
        else if (m <= 2) { vandalise(r, got); c.cnt("arrays overwritten"); }
        else got.reset();
    }
    for (auto& k : kept) expectVals(c, tag + ":kept-array-changed", toD(k.first), k.second);
    VCHECK(c, cdmStr(b.rd->getCDM()) == meta, tag + ":metadata-changed", firstDiff(meta, cdmStr(b.rd->getCDM())));
    // complete second pass in another order
    szv o = iota(ref.size());
    r.shuffle(o);
    for (size_t i : o) {
        const Whole& w = ref[i];
        if (w.isText) { VCHECK(c, b.rd->getData(w.name)->asString() == w.text, tag + ":text", w.name); continue; }
        expectData(c, tag + ":second-pass", b.rd->getData(w.name), w.val, 0, w.name);
    }
    c.cnt("views");
}
// the stages do not disturb the dataset below them either
static void famBelow(Ctx& c)
{
    Rng r(c.r.u64());
    Zoo z;
    z.path = c.file("w" + std::to_string(c.idx));
    z.ds = zooDataset(r, z);
    z.rd = zooSource(r, z, z.ds, "src");
    CDMReader_p src = z.rd;
    const std::string meta = cdmStr(src->getCDM());
    const std::vector<Whole> before = snapshot(src);
    int n = r.range(1, 3);
    for (int t = 0; n > 0 && t < 8; ++t) if (zooStage(r, z, r.pick(zooStages()))) --n;
    c.d << z.desc;
    c.sig("below " + z.desc);
    for (auto& v : z.rd->getCDM().getVariables()) { vandalise(c.r, z.rd->getData(v.getName())); if (c.r.chance(0.5)) vandalise(c.r, z.rd->getDataSlice(v.getName(), 0)); }
    // two views on one source do not influence each other
    Zoo z2;
    z2.path = c.file("v" + std::to_string(c.idx));
    z2.ds = z.ds; z2.g = z.g; z2.xn = z.xn; z2.yn = z.yn; z2.times = z.times; z2.levels = z.levels;
    z2.rd = src;
    // coordinate-based regridding adds missing latitude/longitude variables to its source, deliberately
    const bool addsCoords = z.desc.find("coordnn") != std::string::npos || z.desc.find("forward") != std::string::npos;
    if (!addsCoords) VCHECK(c, cdmStr(src->getCDM()) == meta, "below:metadata", z.desc << " " << firstDiff(meta, cdmStr(src->getCDM())));
    const std::vector<Whole> after = snapshot(src);
    for (size_t i = 0; i < before.size(); ++i) {
        if (before[i].isText) continue;
        VCHECK(c, after[i].name == before[i].name && after[i].len == before[i].len, "below:variables", z.desc);
        expectVals(c, "below:source-changed", after[i].val, before[i].val, 0, z.desc + " " + before[i].name);
        c.cnt("source variables compared");
    }
}
VF_MAIN("C34", "Random mixes of whole, slice, slab, scaled, failing and metadata requests on a view, with returned arrays kept or overwritten, are compared read by read with an identical twin of the view; metadata and the dataset below must stay as they were.",
        {"pure", famPure, 350, 8000}, {"below", famBelow, 150, 4000})
