// Monitors for third-party libraries that must not be entered concurrently.
#include "core.h"
#include <cstring>
namespace sim {
struct In { const void* obj; int thr; const char* fn; int lib; };
enum { MAXIN = 64 };
static In g_in[MAXIN];
static int g_nin;

static const char* const libname[] = {"netCDF-C/HDF5", "udunits2", "ecCodes", "PROJ"};

static bool exempt(int lib, const char* fn)
{
    static const char* const ex[] = {"nc_strerror", "nc_inq_libvers", "cv_convert_double", "cv_convert_float", "cv_convert_doubles", "cv_convert_floats", "cv_free", "ut_encode_time", "ut_decode_time", "ut_ignore",
                                     "ut_encode_clock", "ut_encode_date", "proj_coord", "proj_errno_string", "grib_check", nullptr};
    for (int i = 0; ex[i]; i++)
        if (!strcmp(ex[i], fn)) return true;
    return false;
}

void lib_enter(int lib, const char* fn, const void* obj)
{
    if (!g_active || !tl_self) return;
    T* me = tl_self;
    event(30 + lib, obj != nullptr);
    if (exempt(lib, fn)) {
        point(K_LIB);
        return;
    }
    const bool perobj = lib >= 2;
    if (perobj && !obj) { point(K_LIB); }
    else {
        for (int i = 0; i < g_nin; i++)
            if (g_in[i].thr != me->id && g_in[i].lib == lib && (!perobj || g_in[i].obj == obj))
                violation("lib-exclusive", "%s entered by two threads at once: thread%d in %s, thread%d in %s%s", libname[lib], g_in[i].thr, g_in[i].fn, me->id, fn, perobj ? " (same object)" : "");
    }
    if (g_nin < MAXIN) g_in[g_nin++] = In{obj, me->id, fn, lib};
    point(K_LIB);
}
void lib_exit(int lib, const char* fn, const void* obj)
{
    if (!g_active || !tl_self) return;
    if (exempt(lib, fn)) return;
    T* me = tl_self;
    for (int i = g_nin - 1; i >= 0; i--)
        if (g_in[i].thr == me->id && g_in[i].lib == lib && g_in[i].fn == fn) {
            for (int k = i; k + 1 < g_nin; k++) g_in[k] = g_in[k + 1];
            g_nin--;
            break;
        }
    point(K_LIB);
}
bool lib_fault(const char* fn, int* err)
{
    if (!g_active || !tl_self || exempt(0, fn)) return false;
    Fault f;
    if (!fault_now(OP_LIB, &f)) return false;
    static const int codes[] = {-101 /*NC_EHDFERR*/, -68 /*NC_EIO*/, -61 /*NC_ENOMEM*/, -101};
    *err = codes[f.param % 4];
    return true;
}
static int g_bad[64], g_nbad;
void lib_distrust(int id, bool yes)
{
    for (int i = 0; i < g_nbad; i++)
        if (g_bad[i] == id) {
            if (!yes) g_bad[i] = g_bad[--g_nbad];
            return;
        }
    if (yes && g_nbad < 64) g_bad[g_nbad++] = id;
}
bool lib_distrusted(int id)
{
    for (int i = 0; i < g_nbad; i++)
        if (g_bad[i] == id) return true;
    return false;
}
void lib_reset() { g_nin = 0; }
bool lib_inside()
{
    if (!tl_self) return false;
    for (int i = 0; i < g_nin; i++)
        if (g_in[i].thr == tl_self->id) return true;
    return false;
}
} // namespace sim
