#pragma once
#include "core.h"
#include <cstring>
#include <type_traits>
namespace simwrap {
enum Lib { L_NETCDF = 0, L_UDUNITS = 1, L_ECCODES = 2, L_PROJ = 3 };
template <int LIB, int ID> struct Name { static const char* name; };

struct Scope
{
    int lib;
    const char* fn;
    const void* obj;
    Scope(int l, const char* f, const void* o) : lib(l), fn(f), obj(o) { sim::lib_enter(lib, fn, obj); }
    ~Scope() { sim::lib_exit(lib, fn, obj); }
};
template <class F> struct First { static const void* get(const F&) { return nullptr; } };
template <class P> struct First<P*> { static const void* get(P* p) { return (const void*)p; } };
inline const void* first() { return nullptr; }
template <class A, class... B> const void* first(const A& a, const B&...) { return First<A>::get(a); }

// the netCDF file of a call; -1 if the first argument is no id
inline int nc_id() { return -1; }
template <class A, class... B> int nc_id(const A& a, const B&...)
{
    if constexpr (std::is_same<A, int>::value) return a & ~0xffff;
    else return -1;
}

template <int LIB, int ID, class R, class... A> struct Wrap
{
    template <R (*REAL)(A...)> static R call(A... a)
    {
        Scope s(LIB, Name<LIB, ID>::name, first(a...));
        if constexpr (LIB == L_NETCDF && std::is_same<R, int>::value) {
            int err;
            const int id = nc_id(a...);
            if (id >= 0 && !strcmp(Name<LIB, ID>::name, "nc_close")) sim::lib_distrust(id, false);
            else if (id >= 0 && sim::lib_distrusted(id)) return 5 /*EIO*/;
            if (sim::lib_fault(Name<LIB, ID>::name, &err)) {
                const char* n = Name<LIB, ID>::name;
                if (!strcmp(n, "nc_close") || !strcmp(n, "nc_sync")) REAL(a...); // performed, but reported as failed
                return err;
            }
            const unsigned long before = sim::read_errors();
            const R r = REAL(a...);
            if (id >= 0 && sim::read_errors() != before) sim::lib_distrust(id, true);
            return r;
        } else
        return REAL(a...);
    }
};
template <int LIB, int ID, auto REAL> struct Make { static void* ptr() { return (void*)REAL; } }; // variadic: not wrapped
template <int LIB, int ID, class R, class... A, R (*REAL)(A...)> struct Make<LIB, ID, REAL>
{
    static void* ptr() { return (void*)&Wrap<LIB, ID, R, A...>::template call<REAL>; }
};
template <int LIB, int ID, class R, class... A, R (*REAL)(A...) noexcept> struct Make<LIB, ID, REAL>
{
    static R call(A... a)
    {
        Scope s(LIB, Name<LIB, ID>::name, first(a...));
        return REAL(a...);
    }
    static void* ptr() { return (void*)&call; }
};
} // namespace simwrap
