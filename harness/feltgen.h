// Independent writer of felt files (met.no field files) and the description a reader must report for them.
#ifndef FELTGEN_H_
#define FELTGEN_H_
#include "vfx.h"
#include <fstream>

namespace vf {
typedef short fword;

inline long long feltDays(long y, int m, int d)
{
    y -= m <= 2;
    const long era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097LL + (long long)doe - 719468;
}
struct FTime { int y, mo, d, h, mi; long long epoch() const { return feltDays(y, mo, d) * 86400 + h * 3600 + mi * 60; } };

struct FGrid
{
    int type = 2;     //!< 1..6
    int enc = 0;      //!< 0 header words only, 1: two words per parameter, 2: three words per parameter
    fword abcd[4] = {0, 0, 0, 0};
    std::vector<fword> extra;
    dv par = dv(6, 0.0); //!< the described parameters
    int nx = 1, ny = 1;
    bool same(const FGrid& o) const { return type == o.type && par == o.par && nx == o.nx && ny == o.ny; }
    // axes and projection, from the description
    double R() const { return 6371000.0; }
    dv xs() const { return axis(0); }
    dv ys() const { return axis(1); }
    dv axis(int k) const
    {
        const double D = M_PI / 180;
        double start = 0, incr = 0;
        switch (type) {
        case 1: case 4: {
            const double cells = 79. * 150. / par[2];
            incr = R() * (1 + std::sin(par[4] * D)) / cells;
            start = (1 - par[k]) * incr;
            break;
        }
        case 2: case 3: start = par[k]; incr = par[2 + k]; break;
        default: {
            double x, y;
            fwd(par[0], par[1], x, y);
            start = k == 0 ? x : y;
            incr = par[2 + k] * 1000;
        }
        }
        dv r;
        for (int i = 0; i < (k == 0 ? nx : ny); ++i) r.push_back(start + i * incr);
        return r;
    }
    //! spherical formulas
    void fwd(double lon, double lat, double& x, double& y) const
    {
        const double D = M_PI / 180;
        auto n180 = [](double l) { while (l > 180) l -= 360; while (l < -180) l += 360; return l; };
        switch (type) {
        case 1: case 4: {
            const double k = R() * (1 + std::sin(par[4] * D)) * std::tan(M_PI / 4 - lat * D / 2), dl = (lon - par[3]) * D;
            x = k * std::sin(dl);
            y = -k * std::cos(dl);
            break;
        }
        case 2: x = lon; y = lat; break;
        case 3: {
            const double l = (lon - par[4]) * D, p = lat * D, P = (90 - par[5]) * D;
            const double X = std::cos(p) * std::cos(l), Y = std::cos(p) * std::sin(l), Z = std::sin(p);
            const double X2 = std::sin(P) * X + std::cos(P) * Z, Z2 = -std::cos(P) * X + std::sin(P) * Z;
            x = std::atan2(Y, X2) / D;
            y = std::asin(std::max(-1., std::min(1., Z2))) / D;
            break;
        }
        case 5: {
            const double k0 = std::cos(par[4] * D);
            x = R() * k0 * n180(lon) * D;
            y = R() * k0 * std::log(std::tan(M_PI / 4 + lat * D / 2));
            break;
        }
        case 6: {
            const double p1 = par[5] * D, n = std::sin(p1);
            const double F = std::cos(p1) * std::pow(std::tan(M_PI / 4 + p1 / 2), n) / n;
            const double rho = R() * F / std::pow(std::tan(M_PI / 4 + lat * D / 2), n), rho0 = R() * F / std::pow(std::tan(M_PI / 4 + p1 / 2), n);
            const double th = n * n180(lon - par[4]) * D;
            x = rho * std::sin(th);
            y = rho0 - rho * std::cos(th);
            break;
        }
        }
    }
    std::string str() const { std::ostringstream o; o << "type" << type << " enc" << enc << ' ' << nx << 'x' << ny << " par"; for (double p : par) o << ' ' << p; return o.str(); }
};

//! encode the parameters of a grid; values are rounded to what the encoding can express
inline void encodeFGrid(FGrid& g, Rng& r)
{
    const int n = (g.type == 1 || g.type == 4 || g.type == 5) ? 5 : 6;
    g.extra.clear();
    auto w = [](double v) { return (fword)std::lround(v); };
    if (g.enc == 0) {
        switch (g.type) {
        case 1: case 4:
            if (r.chance(0.75)) {
                g.abcd[0] = w(g.par[0] * 100); g.abcd[1] = w(g.par[1] * 100); g.abcd[2] = w(g.par[2] * 10);
                g.par[0] = g.abcd[0] * .01; g.par[1] = g.abcd[1] * .01; g.par[2] = g.abcd[2] * .1;
            } else { // old extension: negative distance, pole in whole cells
                g.abcd[0] = w(g.par[0]); g.abcd[1] = w(g.par[1]); g.abcd[2] = w(-g.par[2] * 10);
                g.par[0] = g.abcd[0]; g.par[1] = g.abcd[1]; g.par[2] = -g.abcd[2] * .1;
            }
            g.abcd[3] = w(g.par[3]); g.par[3] = g.abcd[3];
            g.par[4] = 60;
            break;
        case 2: case 3:
            g.abcd[0] = w(g.par[1] * 100); g.abcd[1] = w(g.par[0] * 100); g.abcd[2] = w(g.par[3] * 100); g.abcd[3] = w(g.par[2] * 100);
            g.par[0] = g.abcd[1] * .01; g.par[1] = g.abcd[0] * .01; g.par[2] = g.abcd[3] * .01; g.par[3] = g.abcd[2] * .01;
            g.par[4] = g.par[5] = 0;
            break;
        default:
            g.abcd[0] = w(g.par[0] * 100); g.abcd[1] = w(g.par[1] * 100); g.abcd[2] = w(g.par[2] * 10); g.abcd[3] = w(g.par[3] * 10);
            g.par[0] = g.abcd[0] * .01; g.par[1] = g.abcd[1] * .01; g.par[2] = g.abcd[2] * .1; g.par[3] = g.abcd[3] * .1;
            g.par[4] = g.par[5] = 0;
        }
        return;
    }
    for (int i = 0; i < 4; ++i) g.abcd[i] = (fword)r.range(1, 900); // superseded by the extra words
    const double scale = (g.type == 1 || g.type == 4) ? 100 : 10000;
    if (g.enc == 2) { g.extra.push_back(n); g.extra.push_back(3); }
    for (int i = 0; i < n; ++i) {
        double s = scale;
        if (g.enc == 2) { const int e = r.range(2, 5); s = std::pow(10., e); g.extra.push_back(-e); }
        const long v = std::lround(g.par[i] * s);
        g.par[i] = v / s;
        g.extra.push_back(v / 10000);
        g.extra.push_back(v % 10000);
    }
}

inline FGrid rndFGrid(Rng& r, int maxn)
{
    FGrid g;
    g.type = r.range(1, 6);
    g.enc = g.type == 6 ? r.range(1, 2) : r.range(0, 2);
    g.nx = r.range(2, maxn);
    g.ny = r.range(2, maxn);
    switch (g.type) {
    case 1: case 4:
        g.par = {r.uni(-30, 30) + (r.chance(0.2) ? 150 : 0), r.uni(-30, 30), r.uni(2, 60), r.uni(-179, 179), r.pick({60., 60., 45.5, 71.25, 90.}), 0};
        break;
    case 2: case 3:
        g.par = {r.uni(-60, 60), r.uni(-30, 30), r.uni(0.05, 1.0), r.uni(0.05, 1.0), g.type == 3 ? r.uni(-90, 90) : 0, g.type == 3 ? r.uni(5, 60) : 0};
        if (r.chance(0.3)) g.par[3] = -g.par[3];
        break;
    case 5: g.par = {r.uni(-120, 120), r.uni(-60, 60), r.uni(2, 40), r.uni(2, 40), g.enc ? r.pick({0., 20., 45.5, 60.25}) : 0, 0}; break;
    case 6: g.par = {r.uni(-20, 20), r.uni(30, 60), r.uni(2, 30), r.uni(2, 30), r.uni(-30, 30), r.pick({40., 55., 63.5, 77.25})}; break;
    }
    encodeFGrid(g, r);
    return g;
}

struct FField
{
    fword prod = 88, area = 1, dtype = 3, step = 0, vcoord = 2, param = 31, lev1 = 0, lev2 = 0, misc = 0, scale = 0;
    FTime ref{2010, 1, 1, 0, 0};
    FGrid grid;
    std::vector<fword> val;
    bool hole = false; //!< index entry without data
    int wordOffset = 1; // filled by the writer
    long long valid() const { return ref.epoch() + step * 3600LL; }
};

struct FeltFileSpec
{
    std::vector<FField> fields;
    bool bigEndian = false;
    long gapBlocks = 0; //!< blocks left unused before the data part (sparse file)
    bool packed = true; //!< several fields in one block
};

inline void writeFelt(const std::string& file, FeltFileSpec& f)
{
    const size_t BW = 1024, nidx = std::max<size_t>(1, (f.fields.size() * 16 + BW - 1) / BW);
    std::vector<fword> head(BW * (2 + nidx), 0);
    head[0] = 997 + (fword)(f.fields.size() % 3);
    long nreal = 0;
    for (auto& x : f.fields) if (!x.hole) ++nreal;
    head[9] = (fword)nreal;
    head[14] = 0;
    const fword t[3] = {2010, 101, 1200};
    for (int k : {1, 4, 19, 22}) for (int i = 0; i < 3; ++i) head[k + i] = t[i];
    std::ofstream os(file, std::ios::binary | std::ios::trunc);
    auto put = [&](size_t word, std::vector<fword> v) {
        if (f.bigEndian) for (auto& w : v) w = (fword)(((unsigned short)w >> 8) | ((unsigned short)w << 8));
        os.seekp((std::streamoff)word * 2);
        os.write((const char*)v.data(), v.size() * 2);
    };
    size_t pos = BW * (2 + nidx + f.gapBlocks);
    size_t k = 0;
    for (auto& x : f.fields) {
        fword* h = &head[2 * BW + 16 * k++];
        const size_t len = 20 + x.val.size() + x.grid.extra.size();
        const int gt = x.grid.extra.empty() ? x.grid.type : x.grid.type * 1000 + (int)x.grid.extra.size();
        h[0] = x.prod; h[1] = x.area;
        h[2] = x.ref.y; h[3] = x.ref.mo * 100 + x.ref.d; h[4] = x.ref.h * 100 + x.ref.mi;
        h[8] = x.dtype; h[9] = x.step; h[10] = x.vcoord; h[11] = x.param; h[12] = x.lev1; h[13] = x.lev2; h[14] = gt;
        if (x.hole) { h[5] = h[6] = h[7] = -32767; h[15] = 0; continue; }
        if (!f.packed) pos = (pos + BW - 1) / BW * BW;
        const size_t block = pos / BW; // 0-based
        x.wordOffset = pos % BW + 1;
        h[5] = block % 32767 + 1;
        h[6] = x.wordOffset;
        h[7] = len % 32767;
        h[15] = (len / 32767) * 100 + block / 32767;
        std::vector<fword> d(20, 0);
        d[0] = x.prod; d[1] = x.area; d[2] = x.dtype; d[3] = x.step; d[4] = x.vcoord; d[5] = x.param; d[6] = x.lev1; d[7] = x.lev2; d[8] = gt;
        d[9] = x.grid.nx; d[10] = x.grid.ny; d[11] = h[2]; d[12] = h[3]; d[13] = h[4];
        for (int i = 0; i < 4; ++i) d[14 + i] = x.grid.abcd[i];
        d[18] = x.misc; d[19] = x.scale;
        d.insert(d.end(), x.val.begin(), x.val.end());
        d.insert(d.end(), x.grid.extra.begin(), x.grid.extra.end());
        put(pos, d);
        pos += d.size();
    }
    put(0, head);
    os.seekp(0, std::ios::end);
    while (os.tellp() % (BW * 2)) os.put(0);
    os.close();
    if (!os) throw std::runtime_error("harness: cannot write " + file);
}

} // namespace vf
#endif
