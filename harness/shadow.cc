// Shadows of libraries that are not safe for concurrent use and not instrumented themselves: every call of fimex into
// NetCDF and udunits writes an instrumented shadow variable, so that unsynchronised use is seen by ThreadSanitizer.
// PROJ contexts are shadowed one by one. The calls are passed through with their integer registers.
#include <dlfcn.h>
#include <cstddef>
extern "C" { void shim_delay(void); }
typedef long (*Fn)(long, long, long, long, long, long, long, long);
int shadow_nc, shadow_ut, shadow_pj[65536];
unsigned long long shadow_calls;
__attribute__((noinline)) void shadow_touch(int& s) { s = s + 1; __atomic_add_fetch(&shadow_calls, 1, __ATOMIC_RELAXED); }
#define PASS(f, shadow) \
    static Fn real_##f; \
    __attribute__((constructor)) static void init_##f() { real_##f = (Fn)dlsym(RTLD_NEXT, #f); } \
    extern "C" long f(long a, long b, long c, long d, long e, long g, long h, long i) { shadow_touch(shadow); shim_delay(); return real_##f(a, b, c, d, e, g, h, i); }
PASS(nc_close, shadow_nc)
PASS(nc_create, shadow_nc)
PASS(nc_def_dim, shadow_nc)
PASS(nc_def_var, shadow_nc)
PASS(nc_def_var_chunking, shadow_nc)
PASS(nc_def_var_deflate, shadow_nc)
PASS(nc_enddef, shadow_nc)
PASS(nc_free_string, shadow_nc)
PASS(nc_get_att, shadow_nc)
PASS(nc_get_vara, shadow_nc)
PASS(nc_inq_attlen, shadow_nc)
PASS(nc_inq_attname, shadow_nc)
PASS(nc_inq_atttype, shadow_nc)
PASS(nc_inq_dimid, shadow_nc)
PASS(nc_inq_dimlen, shadow_nc)
PASS(nc_inq_dimname, shadow_nc)
PASS(nc_inq_format, shadow_nc)
PASS(nc_inq_ndims, shadow_nc)
PASS(nc_inq_nvars, shadow_nc)
PASS(nc_inq_unlimdim, shadow_nc)
PASS(nc_inq_var, shadow_nc)
PASS(nc_inq_vardimid, shadow_nc)
PASS(nc_inq_varid, shadow_nc)
PASS(nc_inq_varnatts, shadow_nc)
PASS(nc_inq_varndims, shadow_nc)
PASS(nc_inq_vartype, shadow_nc)
PASS(nc_open, shadow_nc)
PASS(nc_put_att, shadow_nc)
PASS(nc_put_att_double, shadow_nc)
PASS(nc_put_att_float, shadow_nc)
PASS(nc_put_att_int, shadow_nc)
PASS(nc_put_att_longlong, shadow_nc)
PASS(nc_put_att_schar, shadow_nc)
PASS(nc_put_att_short, shadow_nc)
PASS(nc_put_att_text, shadow_nc)
PASS(nc_put_att_uchar, shadow_nc)
PASS(nc_put_att_uint, shadow_nc)
PASS(nc_put_att_ulonglong, shadow_nc)
PASS(nc_put_att_ushort, shadow_nc)
PASS(nc_put_vara, shadow_nc)
PASS(nc_put_vara_double, shadow_nc)
PASS(nc_put_vara_float, shadow_nc)
PASS(nc_put_vara_int, shadow_nc)
PASS(nc_put_vara_longlong, shadow_nc)
PASS(nc_put_vara_short, shadow_nc)
PASS(nc_put_vara_schar, shadow_nc)
PASS(nc_put_vara_text, shadow_nc)
PASS(nc_put_vara_uchar, shadow_nc)
PASS(nc_put_vara_uint, shadow_nc)
PASS(nc_put_vara_ulonglong, shadow_nc)
PASS(nc_put_vara_ushort, shadow_nc)
PASS(nc_set_chunk_cache, shadow_nc)
PASS(nc_set_fill, shadow_nc)
PASS(nc_sync, shadow_nc)
PASS(nc_redef, shadow_nc)
PASS(nc_inq, shadow_nc)
PASS(nc_inq_att, shadow_nc)
PASS(nc_get_att_text, shadow_nc)
PASS(nc_get_var, shadow_nc)
PASS(nc_get_vars, shadow_nc)
PASS(nc_put_var, shadow_nc)
PASS(ut_parse, shadow_ut)
PASS(ut_get_converter, shadow_ut)
PASS(ut_are_convertible, shadow_ut)
PASS(ut_read_xml, shadow_ut)
PASS(ut_get_unit_by_name, shadow_ut)
PASS(ut_free_system, shadow_ut)
PASS(ut_offset_by_time, shadow_ut)
// PROJ: a context (and the objects made with it) belongs to one thread at a time. A context gets a shadow of its own when
// it is created (addresses are reused); slot 0 is the default context.
static void* ctxs[60000];
static int ctxN = 1;
#define NOSAN __attribute__((no_sanitize("thread")))
NOSAN static int slotOf(const void* c)
{
    if (!c) return 0;
    int n = __atomic_load_n(&ctxN, __ATOMIC_RELAXED);
    if (n > 60000) n = 60000;
    for (int i = n; --i > 0;) if (__atomic_load_n(&ctxs[i], __ATOMIC_RELAXED) == c) return i;
    return -1;
}
static unsigned long owner[65536];
static unsigned long& ownerCell(const void* pj) { return owner[((unsigned long)pj / 16) % 65536]; }
NOSAN static void own(void* pj, int slot) { __atomic_store_n(&ownerCell(pj), (unsigned long)pj << 16 | (unsigned)slot, __ATOMIC_RELAXED); }
NOSAN static int slotOfPj(const void* pj) { const unsigned long o = __atomic_load_n(&ownerCell(pj), __ATOMIC_RELAXED); return o >> 16 == ((unsigned long)pj << 16) >> 16 ? (int)(o & 0xffff) : -1; }
static void touch(int slot) { if (slot >= 0) shadow_touch(shadow_pj[slot]); }
#define REAL(ret, f, args) typedef ret (*T_##f) args; static T_##f real_##f; __attribute__((constructor)) static void init_##f() { real_##f = (T_##f)dlsym(RTLD_NEXT, #f); }
REAL(void*, proj_context_create, ())
extern "C" void* proj_context_create()
{
    void* c = real_proj_context_create();
    const int i = __atomic_fetch_add(&ctxN, 1, __ATOMIC_RELAXED);
    if (i < 60000) __atomic_store_n(&ctxs[i], c, __ATOMIC_RELAXED);
    return c;
}
REAL(void*, proj_context_destroy, (void*))
extern "C" void* proj_context_destroy(void* c) { touch(slotOf(c)); return real_proj_context_destroy(c); }
REAL(void*, proj_create_crs_to_crs, (void*, const char*, const char*, void*))
extern "C" void* proj_create_crs_to_crs(void* c, const char* a, const char* b, void* x) { const int k = slotOf(c); touch(k); shim_delay(); void* p = real_proj_create_crs_to_crs(c, a, b, x); if (p && k >= 0) own(p, k); return p; }
REAL(void*, proj_normalize_for_visualization, (void*, const void*))
extern "C" void* proj_normalize_for_visualization(void* c, const void* q) { const int k = slotOf(c); touch(k); shim_delay(); void* p = real_proj_normalize_for_visualization(c, q); if (p && k >= 0) own(p, k); return p; }
REAL(size_t, proj_trans_generic, (void*, int, double*, size_t, size_t, double*, size_t, size_t, double*, size_t, size_t, double*, size_t, size_t))
extern "C" size_t proj_trans_generic(void* p, int d, double* x, size_t sx, size_t nx, double* y, size_t sy, size_t ny, double* z, size_t sz, size_t nz, double* t, size_t st, size_t nt)
{
    touch(slotOfPj(p));
    shim_delay();
    return real_proj_trans_generic(p, d, x, sx, nx, y, sy, ny, z, sz, nz, t, st, nt);
}
REAL(void*, proj_destroy, (void*))
extern "C" void* proj_destroy(void* p) { if (p) touch(slotOfPj(p)); return real_proj_destroy(p); }
REAL(int, proj_context_errno, (void*))
extern "C" int proj_context_errno(void* c) { touch(slotOf(c)); return real_proj_context_errno(c); }
