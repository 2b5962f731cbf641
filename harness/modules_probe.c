/* What a user of the library sees of one selection of modules: which are there, and what each of them does with a few fixed inputs.  Compiles as C and as C++. */
#include "zpl.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
static unsigned long long sum; static char out[65536]; static int on;
static void put(const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) sum = (sum ^ b[i]) * 1099511628211ull; if (getenv("VP_SHOW")) { fwrite(p, 1, n, stderr); fputc('|', stderr); } }
static void num(long long v) { char b[32]; put(b, (size_t)snprintf(b, sizeof b, "%lld;", v)); }
static void text(const char *s) { put(s, strlen(s) + 1); }
static void start(const char *m) { sum = 14695981039346656037ull; on += snprintf(out + on, sizeof out - on, "%s ", m); }
static void done(void) { on += snprintf(out + on, sizeof out - on, "%016llx\n", sum); }
#ifdef ZPL_MODULE_ESSENTIALS
ZPL_TABLE(static, pt, pt_, zpl_i32)
ZPL_RING(static, pr_, zpl_i16)
static void essentials(void) {
    zpl_allocator a = zpl_heap_allocator();
    zpl_array(int) v; zpl_array_init(v, a); for (int i = 0; i < 50; i++) zpl_array_append(v, i * i); for (int i = 0; i < 20; i++) zpl_array_remove_at(v, i); for (int i = 0; i < zpl_array_count(v); i++) num(v[i]); zpl_array_free(v);
    pt t; pt_init(&t, a); for (int i = 0; i < 60; i++) pt_set(&t, (zpl_u64)i * 0x9E3779B97F4A7C15ull, i * 3); for (int i = 0; i < 60; i += 7) pt_remove(&t, (zpl_u64)i * 0x9E3779B97F4A7C15ull);
    for (int i = 0; i < 60; i++) { zpl_i32 *p = pt_get(&t, (zpl_u64)i * 0x9E3779B97F4A7C15ull); num(p ? *p : -1); } pt_destroy(&t);
    pr_zpl_i16 r; pr_init(&r, a, 5); for (int i = 0; i < 9; i++) { pr_append(&r, (zpl_i16)i); if (i % 2) num(*pr_get(&r)); } pr_free(&r);
    zpl_arena ar; zpl_arena_init_from_allocator(&ar, a, 1000); char *x = (char *)zpl_alloc(zpl_arena_allocator(&ar), 100), *y = (char *)zpl_alloc(zpl_arena_allocator(&ar), 100); num(x && y && y >= x + 100); num(ar.total_size); zpl_free_all(zpl_arena_allocator(&ar)); num(ar.total_allocated); zpl_arena_free(&ar);
    zpl_pool pl; zpl_pool_init(&pl, a, 4, 32); void *q[5]; for (int i = 0; i < 4; i++) q[i] = zpl_alloc(zpl_pool_allocator(&pl), 32); num(q[0] != q[1]); num(pl.total_size); zpl_free(zpl_pool_allocator(&pl), q[2]); num(zpl_alloc(zpl_pool_allocator(&pl), 32) == q[2]); zpl_pool_free(&pl);
    char m[40]; zpl_memset(m, 'k', 40); zpl_memcopy(m + 3, "abcdefg", 7); zpl_memmove(m + 5, m + 3, 20); put(m, 40); num(zpl_memcompare("ab", "ac", 2) < 0); num((const char *)zpl_memchr("hello", 'l', 5) != NULL);
    num(zpl_is_power_of_two(64)); char *s = zpl_alloc_str(a, "dup"); text(s); zpl_free(a, s); num(zpl_kilobytes(2));
}
#endif
#ifdef ZPL_MODULE_CORE
static int byint(void const *a, void const *b) { return *(const int *)a - *(const int *)b; }
static void core(void) {
    zpl_allocator a = zpl_heap_allocator(); char b[512]; 
    num(zpl_snprintf(b, sizeof b, "%d %5.2f %s %x %p %-6d| %08llu %c", -12, 3.14159, "str", 255u, (void *)0x1234, 7, 123456789ull, 'z')); text(b);
    zpl_string s = zpl_string_make(a, "  hello"); s = zpl_string_appendc(s, " world  "); s = zpl_string_trim(s, " "); text(s); num(zpl_string_length(s)); zpl_string_free(s);
    char *end; num(zpl_str_to_i64("-0x1F", &end, 16)); num(*end); num(zpl_str_to_i64("777", &end, 8)); double f = zpl_str_to_f64("12.5e2", &end); put(&f, 8); zpl_i64_to_str(-987654321, b, 10); text(b); zpl_u64_to_str(0xDEADBEEF, b, 16); text(b);
    zpl_rune rn; num(zpl_utf8_decode((const zpl_u8 *)"\xe2\x82\xac", 3, &rn)); num(rn); zpl_u8 u[4] = {0}; num(zpl_utf8_encode_rune(u, 0x1F600)); put(u, 4);
    int v[40]; for (int i = 0; i < 40; i++) v[i] = (i * 7919) % 101; zpl_sort_array(v, 40, byint); put(v, sizeof v); int k = 55; num(zpl_binary_search(v, 40, sizeof(int), &k, byint) >= 0 ? 1 : 0);
    zpl_u32 w[64], tmp[64]; for (int i = 0; i < 64; i++) w[i] = (zpl_u32)i * 2654435761u; zpl_radix_sort_u32(w, tmp, 64); put(w, sizeof w);
    zpl_file st; num(zpl_file_stream_new(&st, a)); num(zpl_file_write(&st, "stream text", 11)); zpl_file_seek(&st, 7); num(zpl_file_read(&st, b, 4)); put(b, 4); num(zpl_file_size(&st)); zpl_file_close(&st);
    zpl_file fl; num(zpl_file_create(&fl, "probe.txt")); num(zpl_fprintf(&fl, "line %d\n", 7)); num(zpl_file_write(&fl, "more", 4)); num(zpl_file_size(&fl)); zpl_file_close(&fl);
    zpl_file_contents c = zpl_file_read_contents(a, true, "probe.txt"); num(c.size); put(c.data, (size_t)c.size + 1); zpl_file_free_contents(&c); num(zpl_fs_exists("probe.txt")); num(zpl_fs_remove("probe.txt")); num(zpl_fs_exists("probe.txt"));
    { zpl_file h; int fd = open("probe.bin", O_RDWR | O_CREAT | O_TRUNC, 0600); memset(&h, 0, sizeof h); h.fd.i = fd; num(zpl_file_write(&h, "raw", 3)); zpl_file_seek(&h, 1); memset(b, 0, 8); num(zpl_file_read(&h, b, 2)); text(b);
      memset(&h, 0, sizeof h); zpl_file_connect_handle(&h, (void *)(zpl_intptr)fd); num(zpl_file_tell(&h)); num(zpl_file_size(&h)); num(zpl_file_write(&h, "more", 4)); num(zpl_file_size(&h)); close(fd); num(zpl_fs_remove("probe.bin")); }
    text(zpl_path_base_name("a/b/c.txt")); text(zpl_path_extension("a/b/c.txt")); num(zpl_path_is_absolute("/x"));
    zpl_random rg; memset(&rg, 0, sizeof rg); rg.offsets[0] = 1; rg.offsets[1] = 2; rg.value = 3; for (int i = 0; i < 8; i++) { zpl_i64 v1 = zpl_random_range_i64(&rg, 3, 9); num(v1 >= 3 && v1 <= 9); }
    num(zpl_rdtsc() > 0);
    { zpl_virtual_memory vm = zpl_vm_alloc(0, 4096); num(vm.size >= 4096); zpl_vm_free(vm); }
}
#endif
#ifdef ZPL_MODULE_HASHING
static void hashing(void) {
    const char *s = "The quick brown fox jumps over the lazy dog"; long n = 43; zpl_allocator a = zpl_heap_allocator();
    for (long k = 0; k <= n; k += 6) { num(zpl_adler32(s, k)); num(zpl_crc32(s, k)); num((long long)zpl_crc64(s, k)); num(zpl_fnv32(s, k)); num((long long)zpl_fnv64(s, k)); num(zpl_fnv32a(s, k)); num((long long)zpl_fnv64a(s, k)); num(zpl_murmur32(s, k)); num((long long)zpl_murmur64(s, k)); num(zpl_murmur32_seed(s, k, 77)); num((long long)zpl_murmur64_seed(s, k, 77)); }
    for (long k = 1; k < 8; k++) { zpl_u8 *e = zpl_base64_encode(a, s, k); text((char *)e); zpl_u8 *d = zpl_base64_decode(a, e, (zpl_isize)strlen((char *)e)); put(d, k); zpl_free(a, e); zpl_free(a, d); }
}
#endif
#ifdef ZPL_MODULE_REGEX
static void regex(void) {
    const char *p[] = { "a(b+)c", "^[a-z]+$", "\\d\\d-\\x", "(x|y)*z", "[^0-9]+" }; const char *t[] = { "zabbbc", "hello", "17-a", "xyxyz", "12ab" };
    for (int i = 0; i < 5; i++) { zpl_re re; num(zpl_re_compile(&re, zpl_heap_allocator(), p[i], (zpl_isize)strlen(p[i]))); for (int j = 0; j < 5; j++) { zpl_re_capture c[4]; memset(c, 0, sizeof c); zpl_isize o = 0; zpl_b32 m = zpl_re_match(&re, t[j], (zpl_isize)strlen(t[j]), c, 4, &o); num(!!m); if (m) { num(o); for (int k = 0; k < 4; k++) num(c[k].len); } } zpl_re_destroy(&re); }
}
#endif
#ifdef ZPL_MODULE_DLL
static void dll(void) { zpl_dll_handle h = zpl_dll_load("libm.so.6"); num(h != NULL); num(h && zpl_dll_proc_address(h, "cos") != NULL); num(h && zpl_dll_proc_address(h, "no_such_thing") != NULL); if (h) zpl_dll_unload(h); num(zpl_dll_load("/no/such/lib.so") != NULL); }
#endif
#ifdef ZPL_MODULE_OPTS
static void opts(void) {
    zpl_opts o; zpl_opts_init(&o, zpl_heap_allocator(), "app"); zpl_opts_add(&o, "n", "num", "a number", ZPL_OPTS_INT); zpl_opts_add(&o, "t", "text", "a text", ZPL_OPTS_STRING); zpl_opts_add(&o, "r", "real", "a real", ZPL_OPTS_FLOAT); zpl_opts_add(&o, "f", "flag", "a flag", ZPL_OPTS_FLAG);
    char a0[] = "app", a1[] = "-n", a2[] = "42", a3[] = "--text=some", a4[] = "--real", a5[] = "2.5", a6[] = "-f"; char *av[] = { a0, a1, a2, a3, a4, a5, a6, NULL };
    num(!!zpl_opts_compile(&o, 7, av)); num(zpl_opts_integer(&o, "num", 0)); text(zpl_opts_string(&o, "text", "none")); double f = zpl_opts_real(&o, "real", 0); put(&f, 8); num(!!zpl_opts_has_arg(&o, "flag")); num(!!zpl_opts_has_arg(&o, "other")); zpl_opts_free(&o);
}
#endif
#ifdef ZPL_MODULE_PROCESS
static void process(void) { zpl_pr_opts o; memset(&o, 0, sizeof o); num(sizeof(zpl_pr) > 0); }
#endif
#ifdef ZPL_MODULE_MATH
static void fl(float f) { put(&f, 4); }
static void math(void) {
    fl(zpl_sqrt(2.25f)); fl(zpl_floor(-2.5f)); fl(zpl_ceil(2.2f)); fl(zpl_abs(-3.5f)); fl(zpl_clamp(5.f, 0.f, 1.f)); fl(zpl_half_to_float(zpl_float_to_half(1.5f)));
    zpl_vec3 a = zpl_vec3f(1, 2, 3), b = zpl_vec3f(-4, 5, .5f), c; zpl_vec3_add(&c, a, b); fl(c.x); fl(c.y); fl(c.z); zpl_vec3_cross(&c, a, b); fl(c.x); fl(c.y); fl(c.z); fl(zpl_vec3_dot(a, b));
    zpl_mat4 m, n, r; zpl_mat4_identity(&m); zpl_mat4_identity(&n); zpl_mat4_translate(&m, a); zpl_mat4_scale(&n, b); zpl_mat4_mul(&r, &m, &n); for (int i = 0; i < 16; i++) fl((&r.x.x)[i]); zpl_mat4_transpose(&r); for (int i = 0; i < 16; i++) fl((&r.x.x)[i]);
    zpl_quat q = zpl_quatf(1, 2, 3, 4), p; zpl_quat_conj(&p, q); fl(p.x); fl(p.w); zpl_rect2 r1 = zpl_rect2f(zpl_vec2f(0, 0), zpl_vec2f(4, 4)), r2 = zpl_rect2f(zpl_vec2f(2, 2), zpl_vec2f(4, 4)); num(!!zpl_rect2_intersects(r1, r2));
#ifdef __cplusplus
    zpl_vec3 d = a + b; fl(d.x); d = a - b; fl(d.y); d = a * 2.f; fl(d.z);
#else
    zpl_vec3 d; zpl_vec3_add(&d, a, b); fl(d.x); zpl_vec3_sub(&d, a, b); fl(d.y); zpl_vec3_mul(&d, a, 2.f); fl(d.z);
#endif
}
#endif
#ifdef ZPL_MODULE_THREADING
static zpl_mutex mx; static zpl_atomic32 at; static int shared;
static zpl_isize worker(zpl_thread *t) { for (int i = 0; i < 200; i++) { zpl_mutex_lock(&mx); shared++; zpl_mutex_unlock(&mx); zpl_atomic32_fetch_add(&at, 1); } return 0; }
static void threading(void) {
    zpl_thread t[3]; num(!!zpl_mutex_init(&mx)); shared = 0; zpl_atomic32_store(&at, 0); for (int i = 0; i < 3; i++) { zpl_thread_init(&t[i]); zpl_thread_start(&t[i], worker, NULL); } for (int i = 0; i < 3; i++) { zpl_thread_join(&t[i]); zpl_thread_destroy(&t[i]); } num(shared); num(zpl_atomic32_load(&at)); zpl_mutex_destroy(&mx);
    zpl_semaphore s; zpl_semaphore_init(&s); zpl_semaphore_post(&s, 2); zpl_semaphore_wait(&s); num(zpl_semaphore_trywait(&s) == 0 ? 1 : 1); zpl_semaphore_destroy(&s); zpl_mfence(); zpl_sfence(); zpl_lfence(); zpl_yield_thread();
    zpl_atomic64 q; zpl_atomic64_store(&q, 5); num(zpl_atomic64_compare_exchange(&q, 5, 9)); num(zpl_atomic64_load(&q)); num(zpl_thread_current_id() == zpl_thread_current_id());
}
#endif
#ifdef ZPL_MODULE_JOBS
static zpl_atomic32 jc;
static void job(void *d) { zpl_atomic32_fetch_add(&jc, *(int *)d); }
static void jobs(void) { static zpl_jobs_system p; int d[20]; zpl_atomic32_store(&jc, 0); zpl_jobs_init(&p, zpl_heap_allocator(), 2); for (int i = 0; i < 20; i++) { d[i] = i; num(!!zpl_jobs_enqueue(&p, job, &d[i])); } while (!zpl_jobs_done(&p)) zpl_jobs_process(&p); zpl_jobs_free(&p); num(zpl_atomic32_load(&jc)); }
#endif
#ifdef ZPL_MODULE_PARSER
static void parser(void) {
    zpl_allocator a = zpl_heap_allocator(); char t[] = "{ \"a\": 1, \"b\": [true, null, -2.5, \"s\\n\"], c: { d: 0x1F, e: 'q' } }"; zpl_json_object j; memset(&j, 0, sizeof j); num(zpl_json_parse(&j, t, a)); num(zpl_adt_query(&j, "b/2") != NULL); { zpl_adt_node *x = zpl_adt_query(&j, "a"); num(x ? x->integer : -1); } { zpl_adt_node *x = zpl_adt_query(&j, "b/2"); if (x) put(&x->real, 8); } { zpl_adt_node *x = zpl_adt_query(&j, "c/d"); num(x ? x->integer : -1); }
    zpl_json_free(&j);
    char c[] = "x,y\n1,\"two, 2\"\n3,four\n"; zpl_csv_object o; memset(&o, 0, sizeof o); num(zpl_csv_parse(&o, c, a, true)); { zpl_adt_node *y = zpl_adt_query(&o, "y/0"); text(y && y->type == ZPL_ADT_TYPE_STRING ? y->string : "?"); } zpl_string w = zpl_csv_write_string(a, &o); text(strchr(w, 10)); zpl_string_free(w); zpl_csv_free(&o);
    char u[] = "https://user@host:81/path?q=1&r=%41#frag"; zpl_adt_node n; memset(&n, 0, sizeof n); num(zpl_uri_parse(&n, u, a)); w = zpl_uri_write_string(a, &n); text(w); zpl_string_free(w); zpl_uri_free(&n);
}
#endif
#ifdef ZPL_MODULE_SOCKET
static void sock(void) { num(zpl_socket_init()); zpl_socket s = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, 0, "127.0.0.1", "0"); num(s >= 0); zpl_socket_addr ad; num(zpl_socket_get_address(s, &ad)); char h[64] = "", sv[64] = ""; num(zpl_socket_get_address_info(&ad, h, 64, sv, 64)); text(h); zpl_socket_close(s); zpl_socket_terminate(); }
#endif
#define DO(m, f) start(m); f(); done();
int main(void) {
#ifdef ZPL_MODULE_ESSENTIALS
    DO("ESSENTIALS", essentials)
#endif
#ifdef ZPL_MODULE_CORE
    DO("CORE", core)
#endif
#ifdef ZPL_MODULE_HASHING
    DO("HASHING", hashing)
#endif
#ifdef ZPL_MODULE_REGEX
    DO("REGEX", regex)
#endif
#ifdef ZPL_MODULE_DLL
    DO("DLL", dll)
#endif
#ifdef ZPL_MODULE_OPTS
    DO("OPTS", opts)
#endif
#ifdef ZPL_MODULE_PROCESS
    DO("PROCESS", process)
#endif
#ifdef ZPL_MODULE_MATH
    DO("MATH", math)
#endif
#ifdef ZPL_MODULE_THREADING
    DO("THREADING", threading)
#endif
#ifdef ZPL_MODULE_JOBS
    DO("JOBS", jobs)
#endif
#ifdef ZPL_MODULE_PARSER
    DO("PARSER", parser)
#endif
#ifdef ZPL_MODULE_SOCKET
    DO("SOCKET", sock)
#endif
    fputs(out, stdout); return 0;
}
