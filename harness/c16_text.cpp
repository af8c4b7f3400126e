// C16: importing points from text is complete or fails.
#include "common.h"
#include "errs.h"
#include <gbs-io/fromtext.h>
#include <optional>

namespace
{
    using namespace h;
    constexpr const char *path = "/simdisk/points.txt";
    using gbs::KnotsCalcMode;

    /// What the file says, read strictly and independently of the library. Nothing: not a file of points.
    template <class T, size_t D> std::optional<pts<T, D>> parse(const std::string &text, size_t skip, char sep)
    {
        pts<T, D> out;
        size_t at = 0, line_no = 0;
        auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f'; };
        while (at < text.size())
        {
            size_t end = text.find('\n', at);
            if (end == std::string::npos) end = text.size();
            std::string line = text.substr(at, end - at);
            at = end + 1;
            if (line_no++ < skip) continue;
            std::vector<std::string> f;
            size_t i = 0;
            while (true)
            {
                size_t j = line.find(sep, i);
                std::string s = line.substr(i, j == std::string::npos ? j : j - i);
                while (!s.empty() && blank(s.back())) s.pop_back();
                size_t b = 0;
                while (b < s.size() && blank(s[b])) ++b;
                s.erase(0, b);
                if (!s.empty()) f.push_back(s);
                if (j == std::string::npos) break;
                i = j + 1;
            }
            if (f.size() != D) return {};
            pt<T, D> p;
            for (size_t c = 0; c < D; ++c)
            {
                if (f[c].find('\0') != std::string::npos) return {};
                char *e = nullptr;
                errno = 0;
                if constexpr (std::is_same_v<T, float>) p[c] = std::strtof(f[c].c_str(), &e);
                else p[c] = std::strtod(f[c].c_str(), &e);
                if (e == f[c].c_str() || *e != 0 || errno == ERANGE) return {};
            }
            out.push_back(p);
        }
        return out;
    }
    template <class T, size_t D> struct Result { Err err; gbs::BSCurve<T, D> crv; };
    template <class T, size_t D> Result<T, D> attempt(auto f)
    {
        Result<T, D> r{{}, gbs::BSCurve<T, D>({pt<T, D>{}, pt<T, D>{}}, std::vector<T>{0, 0, 1, 1}, 1)};
        r.err = capture([&] { r.crv = f(); });
        return r;
    }
    struct File
    {
        std::string text;
        size_t skip = 0;
        char sep = ' ';
        size_t p = 3;
        KnotsCalcMode mode = KnotsCalcMode::CHORD_LENGTH;
        bool legacy = false;
    };
    template <class T> std::string number(Rng &g, T v)
    {
        char b[64];
        switch (g.below(6))
        {
        case 0: std::snprintf(b, sizeof b, "%.6g", (double)v); break;
        case 1: std::snprintf(b, sizeof b, "%+.9e", (double)v); break;
        case 2: std::snprintf(b, sizeof b, "%.3f", (double)v); break;
        case 3: std::snprintf(b, sizeof b, "%.0f", std::round((double)v * 10)); break;
        case 4: std::snprintf(b, sizeof b, "%.25g", (double)v); break;
        default: std::snprintf(b, sizeof b, "%.17g", (double)v);
        }
        return b;
    }
    template <class T, size_t D> File gen_file(Rng &g, bool small = false)
    {
        File f;
        f.p = (size_t)g.range(1, 5);
        f.sep = " ,;\t|"[g.chance(0.5) ? 0 : g.below(5)];
        f.mode = (KnotsCalcMode[]){KnotsCalcMode::CHORD_LENGTH, KnotsCalcMode::EQUALLY_SPACED, KnotsCalcMode::CENTRIPETAL}[g.below(3)];
        f.skip = g.chance(0.5) ? 0 : g.below(4);
        f.legacy = f.sep == ' ' && g.chance(0.3);
        for (size_t i = 0; i < f.skip; ++i) { const char *hd[] = {"", "Name of the section", "3 12", "# x y z"}; f.text += hd[g.below(4)]; f.text += "\n"; }
        // now and then long enough for the file to be delivered in several blocks
        size_t n = !small && g.chance(0.05) ? (size_t)g.range(200, 700) : scaled(g, 2, 40);
        auto q = gen_walk<T, D>(g, n);
        const char *eol = g.chance(0.2) ? "\r\n" : "\n";
        bool wide = g.chance(0.3), last = g.chance(0.7);
        for (size_t i = 0; i < n; ++i)
        {
            if (wide) f.text += std::string(g.below(3), ' ');
            for (size_t c = 0; c < D; ++c)
            {
                if (c) { f.text += f.sep; if (wide) f.text += std::string(g.below(4), ' '); }
                f.text += number<T>(g, q[i][c]);
            }
            if (wide) f.text += std::string(g.below(3), ' ');
            if (wide && g.chance(0.1)) f.text += f.sep;
            if (i + 1 < n || last) f.text += eol;
        }
        return f;
    }
    template <class T, size_t D> gbs::BSCurve<T, D> import(const File &f, const char *p = path)
    {
        if (f.legacy) return gbs::bscurve_approx_from_points<T, D>(p, f.p, f.mode, f.skip);
        return gbs::bscurve_approx_from_points<T, D>(std::string(p), f.p, f.mode, f.skip, f.sep);
    }
    /// What importing these bytes has to give.
    template <class T, size_t D> void judge(const File &f, const Result<T, D> &got, const char *what)
    {
        auto q = parse<T, D>(f.text, f.skip, f.sep);
        if (!q)
        {
            if (!got.err.any) sim::violation("damaged-accepted", "%s: a file which isn't made of points of %zu coordinates was imported", what, D);
            if (got.err.oom) sim::violation("wrong-error", "%s: out of memory reported", what);
            sim::count("probe.refused");
            return;
        }
        auto want = attempt<T, D>([&] { return gbs::approx(*q, f.p, f.mode, true); });
        if (want.err.any != got.err.any) sim::violation(got.err.any ? "wrong-error" : "damaged-accepted", "%s: importing %zu points gives %s, approximating them gives %s", what, q->size(), got.err.str().c_str(), want.err.str().c_str());
        if (want.err.any)
        {
            if (!got.err.same(want.err)) sim::violation("wrong-error", "%s: importing %zu points gives %s, approximating them gives %s", what, q->size(), got.err.str().c_str(), want.err.str().c_str());
            sim::count("probe.refused");
            return;
        }
        if (got.crv.degree() != want.crv.degree() || !same_bits(got.crv.knotsFlats(), want.crv.knotsFlats()) || !same_bits(got.crv.poles(), want.crv.poles()))
            sim::violation("wrong-result", "%s: the curve isn't the one through the %zu points of the file", what, q->size());
        observe(got.crv.poles());
        sim::count("probe.imported_points", q->size());
        cover_tag(what, q->size(), f.sep, (sim::u64)f.skip * 8 + D);
    }
    void jitter(Rng &e) { if (e.chance(0.6)) sim::disk_jitter(e.real(0, 0.9), e.real(0, 0.3)); }
    template <class F> void any_kind(Rng &g, F &&f)
    {
        switch (g.below(5))
        {
        case 0: f.template operator()<double, 1>(); break;
        case 1: f.template operator()<double, 2>(); break;
        case 2: f.template operator()<float, 3>(); break;
        default: f.template operator()<double, 3>();
        }
    }
}

SIM_SCENARIO(well_formed, 3.0, false)
{
    auto g = sim::stream("case");
    auto e = sim::stream("environment");
    any_kind(g, [&]<class T, size_t D>() {
        auto f = gen_file<T, D>(g);
        if (!parse<T, D>(f.text, f.skip, f.sep)) sim::violation("harness", "the generated file isn't well formed");
        sim::disk_put(path, f.text);
        jitter(e);
        judge<T, D>(f, attempt<T, D>([&] { return import<T, D>(f); }), "well formed file");
        sim::disk_clear();
    });
}

SIM_SCENARIO(malformed, 3.0, false)
{
    auto g = sim::stream("case");
    auto e = sim::stream("environment");
    any_kind(g, [&]<class T, size_t D>() {
        auto f = gen_file<T, D>(g);
        size_t n = (size_t)g.range(1, 3);
        for (size_t i = 0; i < n; ++i)
        {
            auto &s = f.text;
            size_t at = s.empty() ? 0 : g.below(s.size());
            // damage records rather than headers
            if (f.skip) for (int k = 0; k < 8 && (size_t)std::count(s.begin(), s.begin() + at, '\n') < f.skip; ++k) at = g.below(s.size());
            static const char junk[] = "0123456789+-.eE ,;\t|\r\nxXnNaAiIfF#\"";
            switch (g.below(10))
            {
            case 0: s.insert(at, 1, junk[g.below(sizeof junk - 1)]); break;
            case 1: if (!s.empty()) s[at] = junk[g.below(sizeof junk - 1)]; break;
            case 2: if (!s.empty()) s.erase(at, 1); break;
            case 3: s.insert(at, "\n"); break;
            case 4: { size_t j = s.find('\n', at); if (j != std::string::npos) s.erase(j, 1); break; }
            case 5: { size_t j = s.find(f.sep, at); if (j != std::string::npos) s.erase(j, 1); break; }
            case 6: { size_t j = s.find(f.sep, at); if (j != std::string::npos) s[j] = " ,;\t|"[g.below(5)]; break; }
            case 7: { size_t j = s.find_first_of("0123456789", at); if (j != std::string::npos) s.insert(j, "1 2"); break; }
            case 8: s += "\n\n"; break;
            default: { size_t j = s.find(f.sep, at); if (j != std::string::npos) s.insert(j, std::string(1, f.sep) + "1.5"); }
            }
        }
        if (g.chance(0.1)) f.skip = (size_t)g.range(0, 60);
        sim::disk_put(path, f.text);
        jitter(e);
        judge<T, D>(f, attempt<T, D>([&] { return import<T, D>(f); }), "edited file");
        sim::disk_clear();
    });
}

SIM_SCENARIO(cut_short, 2.0, true)
{
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    any_kind(g, [&]<class T, size_t D>() {
        auto f = gen_file<T, D>(g);
        if (sim::fault_on(0)) { f.text.resize(e.below(f.text.size() + 1)); sim::count("fault.truncated_file"); }
        sim::disk_put(path, f.text);
        jitter(e);
        judge<T, D>(f, attempt<T, D>([&] { return import<T, D>(f); }), "truncated file");
        sim::disk_clear();
    });
}

SIM_SCENARIO(disk_faults, 4.0, true)
{
    using sim::IoFault;
    auto g = sim::stream("case");
    auto e = sim::stream("fault");
    any_kind(g, [&]<class T, size_t D>() {
        auto f = gen_file<T, D>(g);
        sim::disk_put(path, f.text);
        jitter(e);
        auto k = e.chance(0.85) ? IoFault::ReadEio : IoFault::OpenFail;
        // the read that would only say "end of file" may be the failing one as well
        auto at = e.chance(0.2) ? f.text.size() : e.below(f.text.size() + 1);
        if (sim::fault_on(0)) sim::disk_fault(k, at, e.chance(0.5));
        auto r = attempt<T, D>([&] { return import<T, D>(f); });
        bool fired = sim::disk_fault_fired() > 0;
        sim::disk_fault(IoFault::None, 0);
        if (!fired) judge<T, D>(f, r, "healthy disk");
        else
        {
            // failing is right; so is reading everything, when the fault hit a read nothing depended on
            if (!r.err.any)
            {
                auto q = parse<T, D>(f.text, f.skip, f.sep);
                (void)q;
                sim::violation("silent-failure", "%s at byte %llu of %zu: the import reported success", sim::io_fault_name(k), (unsigned long long)at, f.text.size());
            }
            if (r.err.oom) sim::violation("wrong-error", "a disk fault is reported as lack of memory");
            sim::count("probe.fault_reported");
        }
        // and once the disk has recovered
        judge<T, D>(f, attempt<T, D>([&] { return import<T, D>(f); }), "recovered disk");
        // missing file
        auto m = attempt<T, D>([&] { return import<T, D>(f, "/simdisk/none.txt"); });
        if (!m.err.any) sim::violation("silent-failure", "a missing file was imported");
        sim::disk_clear();
    });
}

SIM_SCENARIO(concurrent_imports, 1.5, false)
{
    auto g = sim::stream("case");
    auto e = sim::stream("environment");
    any_kind(g, [&]<class T, size_t D>() {
        size_t n = (size_t)g.range(2, 4);
        std::vector<File> f;
        std::vector<std::string> names;
        std::vector<Result<T, D>> r;
        for (size_t i = 0; i < n; ++i)
        {
            f.push_back(gen_file<T, D>(g, true));
            names.push_back("/simdisk/points" + std::to_string(g.chance(0.3) && i ? i - 1 : i) + ".txt");
            if (i && names[i] == names[i - 1]) { auto k = f[i - 1]; f[i] = k; }
            else if (g.chance(0.2) && f[i].text.size()) f[i].text[g.below(f[i].text.size())] = 'x';
            sim::disk_put(names[i].c_str(), f[i].text);
            r.push_back(attempt<T, D>([]() -> gbs::BSCurve<T, D> { throw 1; }));
        }
        jitter(e);
        sim::threads(n, [&](size_t i) { r[i] = attempt<T, D>([&] { return import<T, D>(f[i], names[i].c_str()); }); });
        for (size_t i = 0; i < n; ++i) judge<T, D>(f[i], r[i], "concurrent import");
        sim::disk_clear();
    });
}
