// C32: malformed, truncated and hostile input. Oracle: every call ends with data of the promised size or a std::exception, within the time and memory
// limits, with ASan/UBSan silent; what is read from a truncated file equals the contents of the intact file.
#include "feltworld.h"
#include "gribgen.h"
#include "zoo.h"
#include "raw.h"
#include "GribCDMIndexer.h"
#include "GribFileIndex.h"
#include "GribProtobufIndexWriter.h"
#include <fimex/ChunkReaderFactory.h>
#include <fimex/SpatialAxisSpec.h>
#undef TIMESPEC_H_ // both headers use the same guard
#include <fimex/TimeSpec.h>
#include <fimex/TimeUnit.h>
#include <fimex/TokenizeDotted.h>
#include <fimex/UnitsConverter.h>
#include <fimex/CoordinateSystemSliceBuilder.h>
#include <fimex/Units.h>
#include <fimex/StringUtils.h>
#include <fimex/String2Type.h>
#include <fimex/FimexTime.h>
#include <fimex/coordSys/CoordinateSystem.h>
#include <fimex/coordSys/Projection.h>
#include <fimex/coordSys/verticalTransform/VerticalTransformation.h>
#include <fimex/coordSys/verticalTransform/ToVLevelConverter.h>
#include <fimex/coordSys/verticalTransform/VerticalTransformationUtils.h>
#include <fimex/CrossSectionDefinition.h>
#include <fimex/CDMReaderUtils.h>
#include <fimex/CDMVerticalInterpolator.h>
#include <fimex/CDMReaderWriter.h>
#include <netcdf.h>
#include <fstream>
#include <sys/resource.h>
using namespace vf;
namespace {
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }

//! run a call that may fail with a std::exception only
bool may(Ctx& c, const std::string& what, const std::function<void()>& f)
{
    c.checks++;
    try {
        f();
        c.cnt("calls accepted");
        return true;
    } catch (Violation&) {
        throw;
    } catch (Skip&) {
        throw;
    } catch (std::exception& e) {
        c.cnt("calls refused");
        if (getenv("VF_TRACE")) fprintf(stderr, "refused %s: %s\n", what.c_str(), e.what());
        return false;
    } catch (...) {
        c.fail("foreign-exception:" + what, "not derived from std::exception");
    }
    return false;
}
struct Got { std::map<std::string, std::pair<szv, dv>> v; };
//! read everything a dataset offers
void consume(Ctx& c, const std::string& key, const CDMReader_p& rd, Got* got = 0, bool cs = true)
{
    Rng& r = c.r;
    const CDM& cdm = rd->getCDM();
    // configurations, indexes and chains may declare lengths which contradict the data they give
    const bool judged = key.compare(0, 4, "felt") == 0 || key.compare(0, 5, "grib:") == 0 || key == "magic" || key == "netcdf";
    sv names;
    for (auto& v : cdm.getVariables()) names.push_back(v.getName());
    if (cs && r.chance(0.7)) {
        may(c, "listCoordinateSystems", [&] {
            for (auto& s : listCoordinateSystems(rd)) {
                s->id();
                s->getGeoXAxis(); s->getGeoYAxis(); s->getGeoZAxis(); s->getTimeAxis();
                if (s->hasProjection()) s->getProjection()->getProj4String();
                if (s->hasVerticalTransformation()) { may(c, "vertical", [&] { for (int k = 0; k < 3; ++k) if (auto vc = s->getVerticalTransformation()->getConverter(rd, s, k == 0 ? MIFI_VINT_PRESSURE : k == 1 ? MIFI_VINT_HEIGHT : MIFI_VINT_DEPTH)) vc->getDataSlice(createSliceBuilder(cdm, vc)); }); }
            }
        });
    }
    for (auto& n : names) {
        may(c, "axes", [&] { cdm.getTimeAxis(n); cdm.getHorizontalXAxis(n); cdm.getHorizontalYAxis(n); std::string a, b; cdm.getLatitudeLongitude(n, a, b); });
        may(c, "getProjectionOf", [&] { cdm.getProjectionOf(n); });
        const CDMVariable v = cdm.getVariable(n);
        szv l;
        bool dims = true;
        for (auto& d : v.getShape()) { if (!cdm.hasDimension(d)) { dims = false; break; } l.push_back(cdm.getDimension(d).getLength()); }
        const bool text = v.getDataType() == CDM_STRING || v.getDataType() == CDM_STRINGS || v.getDataType() == CDM_NAT;
        double vol = 1;
        for (size_t x : l) vol *= x;
        if (vol > 2e6) { c.cnt("variables too big to read"); continue; }
        may(c, "getData", [&] {
            DataPtr d = rd->getData(n);
            if (!d) { c.cnt("null data"); return; }
            if (dims && !text && judged && !(v.getShape().empty() && d->size() == 0)) VCHECK(c, d->size() == prod(l), key + ":size", n << vstr(v.getShape()) << vstr(l) << " returns " << d->size() << " values");
            if (!text) { const dv x = toD(d); double s = 0; for (double y : x) s += y; if (got) got->v[n] = {l, x}; }
            else d->asString();
            c.cnt("variables read");
        });
        if (text) continue;
        may(c, "getScaledData", [&] { toD(rd->getScaledData(n)); });
        may(c, "getDataSlice", [&] { if (DataPtr d = rd->getDataSlice(n, r.chance(0.8) ? r.below(3) : r.u64())) toD(d); });
        if (r.chance(0.3)) may(c, "getScaledDataInUnit", [&] { toD(rd->getScaledDataInUnit(n, r.pick(sv{"K", "degC", "Pa", "m", "1", "hours since 2000-01-01", "nonsense unit", ""}))); });
        may(c, "slicebuilder", [&] {
            SliceBuilder sb(cdm, n);
            for (auto& d : sb.getDimensionNames()) if (r.chance(0.5)) { const size_t L = cdm.getDimension(d).getLength(); sb.setStartAndSize(d, r.below(L + 1), r.below(L + 2)); }
            if (DataPtr d = rd->getDataSlice(n, sb)) toD(d);
        });
    }
    c.cnt("datasets consumed");
}
//! values of a damaged file are those of the intact one, or missing
void sameOrMissing(Ctx& c, const std::string& key, const CDMReader_p& full, const Got& g, const Got& part)
{
    for (auto& kv : part.v) {
        auto it = g.v.find(kv.first);
        if (it == g.v.end() || it->second.first != kv.second.first || it->second.second.size() != kv.second.second.size()) continue;
        const double fill = full->getCDM().getFillValue(kv.first);
        for (size_t i = 0; i < kv.second.second.size(); ++i) {
            const double a = kv.second.second[i], b = it->second.second[i];
            VCHECK(c, same(a, b) || std::isnan(a) || a == fill || close(a, fill, 1e-6), key, kv.first << " at " << i << " is " << a << ", the intact file has " << b);
        }
        c.cnt("variables compared with the intact file");
    }
}
std::string mutate(Rng& r, std::string s, int n, size_t lo, size_t hi)
{
    hi = std::min(hi, s.size());
    if (lo >= hi) return s;
    for (int i = 0; i < n; ++i) {
        const size_t p = lo + r.below(hi - lo);
        switch (r.below(6)) {
        case 0: s[p] = char(r.below(256)); break;
        case 1: s[p] ^= char(1 << r.below(8)); break;
        case 2: s[p] = char(0xff); break;
        case 3: s[p] = 0; break;
        case 4: s[p] = char(0x80); break;
        case 5: s[p] = char(0x7f); break;
        }
    }
    return s;
}
// ---- felt
void famFelt(Ctx& c)
{
    Rng& r = c.r;
    World w = rndWorld(c, false);
    if (w.ff.gapBlocks > 100) w.ff.gapBlocks = 3;
    const std::string f = c.file("f.felt");
    writeFelt(f, w.ff);
    const std::string org = slurp(f);
    Got ref;
    CDMReader_p full = CDMFileReaderFactory::create("felt", f, XMLInputString(w.cfg));
    consume(c, "felt:intact", full, &ref, false);
    for (int rep = 0; rep < 6; ++rep) {
        std::string s = org;
        const int k = r.below(7);
        switch (k) {
        case 0: s.resize(r.below(s.size())); break;
        case 1: s.resize(std::min(s.size(), r.pick({size_t(0), size_t(1), size_t(2), size_t(2048), size_t(2047), size_t(4096), size_t(4097), size_t(6144), size_t(6143)}))); break;
        case 2: s = mutate(r, s, r.range(1, 4), 0, 60); break;                                          // file header
        case 3: s = mutate(r, s, r.range(1, 6), 4096, 4096 + 32 * std::max<size_t>(1, w.ff.fields.size())); break; // field index
        case 4: s = mutate(r, s, r.range(1, 20), 4096 + 32 * w.ff.fields.size(), s.size()); break;            // anywhere in data
        case 5: { // field headers: the first 20 words
            for (auto& x : w.ff.fields) if (!x.hole && r.chance(0.3)) {
                for (size_t i = 4096; i + 32 <= s.size() && i < 4096 + 32 * w.ff.fields.size(); i += 32) {
                    auto word = [&](size_t o) { unsigned char a = s[o], b = s[o + 1]; return w.ff.bigEndian ? a * 256 + b : b * 256 + a; };
                    const size_t at = ((word(i + 10) - 1) * 1024 + word(i + 12) - 1) * 2;
                    if (r.chance(0.2)) s = mutate(r, s, r.range(1, 3), at, at + 40);
                }
                break;
            }
            break;
        }
        case 6: s = mutate(r, s, r.range(1, 40), 0, s.size()); break;
        }
        spit(f, s);
        c.sig(k).sig(s.size() % 997);
        Got part;
        may(c, "felt", [&] { consume(c, "felt:damaged", CDMFileReaderFactory::create("felt", f, XMLInputString(w.cfg)), &part, false); });
        if (k < 2) sameOrMissing(c, "felt:truncated", full, ref, part);
        c.cnt("damaged felt files");
    }
    c.d << w.grid.str() << " fields=" << w.ff.fields.size();
}
// ---- grib and its indexes
std::string splice(Rng& r, const std::string& org, std::string& what)
{
    std::string s = org;
    switch (r.below(9)) {
    case 0: what = "truncated"; s.resize(r.below(s.size())); break;
    case 1: what = "junk-before"; s.insert(0, std::string(r.range(1, 20000), r.chance(0.5) ? 'G' : 'R')); break;
    case 2: { what = "junk-inside"; std::string j; for (int i = r.range(1, 300); i > 0; --i) j += char(r.below(256)); s.insert(r.below(s.size()), j); break; }
    case 3: what = "marker"; s.insert(r.below(2) ? 0 : s.size(), r.pick(sv{"GRIB", "GRI", "GRIBGRIB", "7777", "GRIB7777", std::string("GRIB\0\0\0\1", 8), std::string("GRIB\0\0\0\2\0\0\0\0\0\0\0\0", 16), std::string("GRIB\0\0\0\3", 8), std::string("GRIB\377\377\377\1", 8)})); break;
    case 4: case 5: { // indicator section
        what = "indicator";
        size_t p = r.chance(0.5) ? 0 : s.find("GRIB", r.below(s.size()));
        if (p == std::string::npos) p = 0;
        s = mutate(r, s, r.range(1, 2), p + 4, p + 16);
        break;
    }
    case 6: { what = "cut-out"; const size_t a = r.below(s.size()), n = r.below(s.size() - a) + 1; s.erase(a, n); break; }
    case 7: what = "empty"; s.resize(r.below(9)); break;
    case 8: { what = "end"; const size_t p = s.find("7777", r.below(s.size())); if (p != std::string::npos) s[p + r.below(4)] = 'x'; break; }
    }
    return s;
}
void famGrib(Ctx& c)
{
    Rng& r = c.r;
    GSet s = rndGSet(c, c.file("g"), true, false);
    c.d << s.str();
    const std::string cfg = gribReaderConfig(s, r.chance(0.3)), f = s.files[0], org = slurp(f);
    CDMReader_p full = CDMFileReaderFactory::create("grib", f, XMLInputString(cfg));
    Got ref;
    consume(c, "grib:intact", full, &ref, false);
    for (int rep = 0; rep < 4; ++rep) {
        std::string what;
        const std::string x = splice(r, org, what);
        const std::string g = c.file("d.grb");
        spit(g, x);
        c.sig(what).sig(s.ed);
        c.d << ' ' << what;
        Got part;
        may(c, "grib", [&] { consume(c, "grib:" + what, CDMFileReaderFactory::create("grib", g, XMLInputString(cfg)), &part, false); });
        if (what == "truncated" || what == "junk-before" || what == "marker") sameOrMissing(c, "grib:" + what, full, ref, part);
        may(c, "grib-index", [&] { GribFileIndex gi(createDefaultChunkReaderFactory(), g, "", {}); for (auto& m : gi.listMessages()) { m.getFilePosition(); } });
        // the file changes under an open reader
        if (r.chance(0.5)) {
            spit(g, org);
            may(c, "grib-changed", [&] {
                CDMReader_p rd = CDMFileReaderFactory::create("grib", g, XMLInputString(cfg));
                spit(g, x);
                consume(c, "grib:changed", rd, 0, false);
            });
        }
        c.cnt("damaged grib files");
    }
}
std::string mutateXml(Rng& r, std::string s, int n)
{
    static const sv V = {"", "-1", "0", "1", "99999999999999999999", "4294967295", "-2147483648", "nan", "inf", "1e400", "abc", "file:nowhere", "1,2", "1:2:3", "&#0;", "&lt;", " ", "+proj=longlat", "+proj=nonsense +a", "x", "string", "double", "true"};
    for (int i = 0; i < n; ++i) {
        switch (r.below(6)) {
        case 0: case 1: { // attribute value
            const size_t p = s.find('"', r.below(s.size() + 1));
            if (p == std::string::npos) break;
            const size_t q = s.find('"', p + 1);
            if (q != std::string::npos) s.replace(p + 1, q - p - 1, r.pick(V));
            break;
        }
        case 2: { // element text
            const size_t p = s.find('>', r.below(s.size() + 1));
            if (p == std::string::npos) break;
            const size_t q = s.find('<', p);
            if (q != std::string::npos) s.replace(p + 1, q - p - 1, r.pick(V));
            break;
        }
        case 3: { // remove an element
            const size_t p = s.find('<', r.below(s.size() + 1));
            if (p == std::string::npos) break;
            const size_t q = s.find("/>", p), e = s.find('>', p);
            if (q != std::string::npos && q < e) s.erase(p, q + 2 - p);
            break;
        }
        case 4: { // repeat an element
            const size_t p = s.find('<', r.below(s.size() + 1));
            if (p == std::string::npos) break;
            const size_t q = s.find("/>", p), e = s.find('>', p);
            if (q != std::string::npos && q + 1 == e) s.insert(p, s.substr(p, q + 2 - p));
            break;
        }
        case 5: if (!s.empty() && r.chance(0.3)) s = mutate(r, s, 1, 0, s.size()); else if (r.chance(0.1)) s.resize(r.below(s.size() + 1)); else { // remove an attribute
            const size_t p = s.find(' ', r.below(s.size() + 1));
            if (p == std::string::npos) break;
            const size_t q = s.find('"', s.find('"', p) + 1);
            if (q != std::string::npos) s.erase(p, q + 1 - p);
            break;
        }
        }
    }
    return s;
}
void famIndex(Ctx& c)
{
    Rng& r = c.r;
    GSet s = rndGSet(c, c.file("g"), false, false);
    const std::string cfg = gribReaderConfig(s, r.chance(0.3));
    auto ca = createDefaultChunkReaderFactory();
    const std::string ml = c.file("i.grbml"), fp = c.file("i.grbfp");
    { const GribFileIndex gi(ca, s.files[0], "", {}); std::ofstream(ml) << gi; }
    {
        GribCDMIndexer ix(XMLInputString(cfg), std::vector<std::pair<std::string, std::string>>(), ca);
        ix.load(s.files);
        auto cdm = std::make_shared<CDM>();
        auto gi = std::make_shared<GribCDMIndexer::grib_indexed>();
        ix.build(cdm, gi);
        GribProtobufIndexWriter().write(*cdm, *gi, fp);
    }
    const std::string oml = slurp(ml), ofp = slurp(fp);
    c.d << s.str();
    const XMLInputString none("<cdm_fimex_index_reader_config/>");
    for (int rep = 0; rep < 4; ++rep) {
        spit(ml, mutateXml(r, oml, r.range(1, 6)));
        may(c, "grbml", [&] { consume(c, "grbml", CDMFileReaderFactory::create("grbml", ml, XMLInputString(cfg)), 0, false); });
        std::string x = ofp;
        const int k = r.below(3);
        if (k == 0) x.resize(r.below(x.size()));
        else x = mutate(r, x, r.range(1, 4), 0, k == 1 ? x.size() : 64);
        spit(fp, x);
        may(c, "grbfp", [&] { consume(c, "grbfp", CDMFileReaderFactory::create("grbfp", fp, none), 0, false); });
        // intact index, damaged data
        spit(fp, ofp);
        std::string what;
        const std::string og = slurp(s.files[0]);
        spit(s.files[0], splice(r, og, what));
        may(c, "grbfp-data", [&] { consume(c, "grbfp-data", CDMFileReaderFactory::create("grbfp", fp, none), 0, false); });
        spit(s.files[0], og);
        const std::string mc = mutateXml(r, cfg, r.range(1, 5));
        may(c, "grib-config", [&] { consume(c, "grib-config", CDMFileReaderFactory::create("grib", s.files[0], XMLInputString(mc)), 0, false); });
        c.sig(k).sig(rep);
        c.cnt("damaged indexes");
    }
}
// ---- any bytes offered to any reader, type detection
void famMagic(Ctx& c)
{
    Rng& r = c.r;
    static const sv M = {"", "C", "CDF", "CDF\001", "CDF\002", "CDF\005", "CDF\003", "\211HDF", "\211HDF\r\n\032\n", "\016\003\023\001", "GRIB", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\"?><netcdf", "<?xml version=\"1.0\"?>\n<gfi:gribFileIndex", "<netcdf/>", "\377\376", "fcdm"};
    std::string s = r.pick(M);
    s.resize(std::min<size_t>(s.size(), r.below(20)));
    for (int i = r.chance(0.5) ? 0 : r.range(0, 40); i > 0; --i) s += char(r.below(256));
    const std::string f = c.file("m" + r.pick(sv{"", ".nc", ".grb", ".felt", ".grbml", ".ncml", ".grbfp", ".xml"}));
    spit(f, s);
    c.d << "bytes " << vstr(std::vector<int>(s.begin(), s.end())) << ' ' << f;
    c.sig(s);
    for (const char* t : {"", "netcdf", "ncml", "grib", "grbml", "grbfp", "felt", "nonsense"}) {
        may(c, std::string("open ") + t, [&] { if (auto rd = CDMFileReaderFactory::create(t, f)) consume(c, "magic", rd, 0, false); });
        if (r.chance(0.3)) may(c, std::string("config ") + t, [&] { if (auto rd = CDMFileReaderFactory::create(t, f, XMLInputString(r.pick(sv{"", "<a/>", "<cdm_felt_config/>", "<cdmGribReaderConfig/>", "junk"})))) consume(c, "magic", rd, 0, false); });
    }

    may(c, "reader-writer", [&] { CDMFileReaderFactory::createReaderWriter("netcdf", f); });
    c.cnt("files offered");
}
#include "c32_hostile.h"
} // namespace
VF_MAIN("C32", "valid inputs damaged by truncation, byte, field, section, token and attribute mutation; hostile metadata, coordinates and arguments through every operation",
        {"felt", famFelt, 160, 3000}, {"grib", famGrib, 160, 3000}, {"index", famIndex, 100, 2000}, {"magic", famMagic, 300, 5000},
        {"xml", famXml, 300, 5000}, {"args", famArgs, 700, 20000}, {"netcdf", famNetcdf, 500, 12000}, {"ops", famOps, 500, 12000})
