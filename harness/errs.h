// Capturing how a call failed.
#pragma once
#include "common.h"
#include <exception>
#include <new>
namespace h
{
    struct Err
    {
        bool any = false;
        bool oom = false;
        std::string type, what;
        bool same(const Err &o) const { return any == o.any && type == o.type && what == o.what; }
        std::string str() const { return any ? type + "(" + what.substr(0, 120) + ")" : std::string("no error"); }
    };
    template <class F> Err capture(F &&f)
    {
        Err e;
        try { f(); }
        catch (const std::bad_alloc &x) { e.any = true; e.oom = true; e.type = "bad_alloc"; }
        catch (const std::exception &x) { e.any = true; e.type = typeid(x).name(); e.what = x.what(); }
        catch (int v) { e.any = true; e.type = "int"; e.what = std::to_string(v); }
        catch (const char *s) { e.any = true; e.type = "string"; e.what = s; }
        return e;
    }
    inline void expect_err(const Err &got, const Err &want, const char *what)
    {
        if (!got.same(want))
            sim::violation("wrong-error", "%s: the caller got %s, the first failing element alone gives %s", what, got.str().c_str(), want.str().c_str());
        if (want.any) sim::count("probe.failure_reported");
    }
}
