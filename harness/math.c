/* Vector, matrix, quaternion, rectangle and scalar mathematics.  One command per call:
   f name n variant den args...   where every argument is an integer numerator over den.
   Results are reported as integers: exact ones in sixteenths, approximate ones (names starting with ~) in thousandths. */
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#ifdef ZPL_NO_MATH_H
double rint(double); float tanf(float);
#else
#include <math.h>
#endif
#define BAD 999999999
typedef zpl_f32 F;
static double A[128]; static int nA, apx; static long out[128]; static int no;
static void put(double v) { long r; double k = v * (apx ? 1000 : 16); if (!(k < 9e8 && k > -9e8)) r = BAD; else if (apx) r = (long)rint(k); else { r = (long)k; if ((double)r != k) r = BAD; } out[no++] = r; }
static F a(int i) { return (F)A[i]; }
static zpl_vec2 v2(int i) { return zpl_vec2f(a(i), a(i + 1)); }
static zpl_vec3 v3(int i) { return zpl_vec3f(a(i), a(i + 1), a(i + 2)); }
static zpl_vec4 v4(int i) { return zpl_vec4f(a(i), a(i + 1), a(i + 2), a(i + 3)); }
static zpl_quat qt(int i) { return zpl_quatf(a(i), a(i + 1), a(i + 2), a(i + 3)); }
static void putn(F const *e, int n) { for (int i = 0; i < n; i++) put(e[i]); }
static void mat(F *e, int i, int n) { for (int k = 0; k < n; k++) e[k] = a(i + k); }
static zpl_rect2 r2(int i) { return zpl_rect2f(v2(i), v2(i + 2)); }
static zpl_aabb2 b2(int i) { return zpl_aabb2f(a(i), a(i + 1), a(i + 2), a(i + 3)); }
static void put_b2(zpl_aabb2 b) { putn(b.min.e, 2); putn(b.max.e, 2); }
static F deg(F d) { return (F)(d * 3.14159265358979323846 / 180); }
static int op(const char *f, int n, int w) {
#define OP(x) if (!strcmp(f, x))
#ifdef __cplusplus
#define BIN(x, N, fn, o) OP(x) if (n == N) { zpl_vec##N d = v##N(0); if (w == 0) d = v##N(0) o v##N(N); else if (w == 1) d o##= v##N(N); else zpl_vec##N##_##fn(&d, d, v##N(N)); putn(d.e, N); return 1; }
#define SCA(x, N, fn, o) OP(x) if (n == N) { zpl_vec##N d = v##N(0); if (w == 0) d = v##N(0) o a(N); else if (w == 1) d o##= a(N); else zpl_vec##N##_##fn(&d, d, a(N)); putn(d.e, N); return 1; }
#else
#define BIN(x, N, fn, o) OP(x) if (n == N) { zpl_vec##N d = v##N(0); if (w == 0) zpl_vec##N##_##fn(&d, v##N(0), v##N(N)); else if (w == 1) zpl_vec##N##_##fn##eq(&d, v##N(N)); else { d = v##N(N); zpl_vec##N##_##fn(&d, v##N(0), d); } putn(d.e, N); return 1; }
#define SCA(x, N, fn, o) OP(x) if (n == N) { zpl_vec##N d = v##N(0); if (w == 0) { d.e[0] = 77; zpl_vec##N##_##fn(&d, v##N(0), a(N)); } else if (w == 1) zpl_vec##N##_##fn##eq(&d, a(N)); else zpl_vec##N##_##fn(&d, d, a(N)); putn(d.e, N); return 1; }
#endif
    BIN("add", 2, add, +) BIN("add", 3, add, +) BIN("add", 4, add, +) BIN("sub", 2, sub, -) BIN("sub", 3, sub, -) BIN("sub", 4, sub, -)
    SCA("mul", 2, mul, *) SCA("mul", 3, mul, *) SCA("mul", 4, mul, *) SCA("div", 2, div, /) SCA("div", 3, div, /) SCA("div", 4, div, /)
    OP("make") { F e[4] = { a(0), n > 1 ? a(1) : 0, n > 2 ? a(2) : 0, n > 3 ? a(3) : 0 };
        if (n == 2) { zpl_vec2 v = w == 0 ? v2(0) : zpl_vec2fv(e); putn(v.e, 2); } if (n == 3) { zpl_vec3 v = w == 0 ? v3(0) : zpl_vec3fv(e); put(v.x); put(v.g); put(v.p); } if (n == 4) { zpl_vec4 v = w == 0 ? v4(0) : zpl_vec4fv(e); put(v.x); put(v.g); put(v.p); put(v.a); } return 1; }
    OP("zero") { if (n == 2) { zpl_vec2 v = zpl_vec2f_zero(); putn(v.e, 2); } if (n == 3) { zpl_vec3 v = zpl_vec3f_zero(); putn(v.e, 3); } if (n == 4) { zpl_vec4 v = zpl_vec4f_zero(); putn(v.e, 4); } return 1; }
    OP("dot") { put(n == 2 ? zpl_vec2_dot(v2(0), v2(2)) : n == 3 ? zpl_vec3_dot(v3(0), v3(3)) : zpl_vec4_dot(v4(0), v4(4))); return 1; }
    OP("mag2") { put(n == 2 ? zpl_vec2_mag2(v2(0)) : n == 3 ? zpl_vec3_mag2(v3(0)) : zpl_vec4_mag2(v4(0))); return 1; }
    OP("cross") { if (n == 2) { F r; zpl_vec2_cross(&r, v2(0), v2(2)); put(r); } else { zpl_vec3 d = v3(w == 2 ? 3 : 0); if (w == 2) zpl_vec3_cross(&d, v3(0), d); else zpl_vec3_cross(&d, d, v3(3)); putn(d.e, 3); } return 1; }
    OP("max") { put(n == 2 ? zpl_vec2_max(v2(0)) : zpl_vec3_max(v3(0))); return 1; }
    OP("side") { put(zpl_vec2_side(v2(0), v2(2), v2(4))); return 1; }
    OP("aspect") { put(zpl_vec2_aspect_ratio(v2(0))); return 1; }
    OP("reflect") { if (n == 2) { zpl_vec2 d; zpl_vec2_reflect(&d, v2(0), v2(2)); putn(d.e, 2); } else { zpl_vec3 d; zpl_vec3_reflect(&d, v3(0), v3(3)); putn(d.e, 3); } return 1; }
    OP("lerp") { F t = a(2 * n); if (n == 1) put(zpl_lerp(a(0), a(1), t)); if (n == 2) { zpl_vec2 d; zpl_vec2_lerp(&d, v2(0), v2(2), t); putn(d.e, 2); } if (n == 3) { zpl_vec3 d; zpl_vec3_lerp(&d, v3(0), v3(3), t); putn(d.e, 3); }
        if (n == 4) { if (w == 0) { zpl_vec4 d; zpl_vec4_lerp(&d, v4(0), v4(4), t); putn(d.e, 4); } else { zpl_quat d; zpl_quat_lerp(&d, qt(0), qt(4), t); putn(d.e, 4); } } return 1; }
    OP("unlerp") { put(zpl_unlerp(a(0), a(1), a(2))); return 1; }
    OP("smooth") { put(zpl_smooth_step(a(0), a(1), a(2))); return 1; }
    OP("smoother") { put(zpl_smoother_step(a(0), a(1), a(2))); return 1; }
    OP("cslerp") { F t = a(4 * n); if (n == 2) { zpl_vec2 d; if (w) zpl_vec2_dcslerp(&d, v2(0), v2(2), v2(4), v2(6), t); else zpl_vec2_cslerp(&d, v2(0), v2(2), v2(4), v2(6), t); putn(d.e, 2); } else { zpl_vec3 d; if (w) zpl_vec3_dcslerp(&d, v3(0), v3(3), v3(6), v3(9), t); else zpl_vec3_cslerp(&d, v3(0), v3(3), v3(6), v3(9), t); putn(d.e, 3); } return 1; }
    /* matrices, column by column; the cells behind a matrix must stay as they are */
#define MAT(N, T) if (n == N) { struct { F g0[4]; T m; F g1[8]; } x, y, z; F e[N * N]; for (int k = 0; k < 4; k++) x.g0[k] = y.g0[k] = z.g0[k] = 5; for (int k = 0; k < 8; k++) { x.g1[k] = y.g1[k] = 5; z.g1[k] = 6; } mat(x.m.e, 0, N * N); mat(y.m.e, N * N, N * N); mat(z.m.e, 40, N * N);
#define GUARD for (int k = 0; k < 4; k++) if (x.g0[k] != 5 || y.g0[k] != 5 || z.g0[k] != 5) no = 0; for (int k = 0; k < 8; k++) if (x.g1[k] != 5 || y.g1[k] != 5 || z.g1[k] != 6) no = 0;
#define MATS(N, T, M, FL, V) MAT(N, T) \
    OP("ident") { if (w) zpl_float##FL##_identity(zpl_float##FL##_m(&x.m)); else zpl_##M##_identity(&x.m); putn(x.m.e, N * N); GUARD return 1; } \
    OP("trans") { if (w) zpl_float##FL##_transpose(zpl_float##FL##_m(&x.m)); else zpl_##M##_transpose(&x.m); putn(x.m.e, N * N); GUARD return 1; } \
    OP("mmul") { T *o = w == 0 ? &z.m : w == 1 ? &x.m : w == 2 ? &y.m : &z.m; if (w == 3) zpl_float##FL##_mul(zpl_float##FL##_m(o), zpl_float##FL##_m(&x.m), zpl_float##FL##_m(&y.m)); else zpl_##M##_mul(o, &x.m, &y.m); putn(o->e, N * N); GUARD return 1; } \
    OP("msquare") { zpl_##M##_mul(&x.m, &x.m, &x.m); putn(x.m.e, N * N); GUARD return 1; } \
    OP("mvec") { V v, r; for (int k = 0; k < N; k++) v.e[k] = a(N * N + k); if (w) zpl_float##FL##_mul_vec##N(&r, zpl_float##FL##_m(&x.m), v); else zpl_##M##_mul_vec##N(&r, &x.m, v); putn(r.e, N); GUARD return 1; } \
    OP("inv") { zpl_##M##_inverse(&z.m, &x.m); putn(z.m.e, N * N); for (int k = 0; k < N * N; k++) if (x.m.e[k] != a(k)) no = 0; GUARD return 1; } \
    OP("copy") { zpl_##M##_copy(&z.m, &x.m); putn(z.m.e, N * N); GUARD return 1; } (void)e; }
    MATS(2, zpl_mat2, mat2, 22, zpl_vec2) MATS(3, zpl_mat3, mat3, 33, zpl_vec3) MATS(4, zpl_mat4, mat4, 44, zpl_vec4)
    OP("det") { if (n == 2) { zpl_mat2 m; mat(m.e, 0, 4); put(zpl_mat2_determinate(&m)); } else { zpl_mat3 m; mat(m.e, 0, 9); put(zpl_mat3_determinate(&m)); } return 1; }
#ifdef __cplusplus
#define MOPS(N, T, V) if (n == N) { T x, y; mat(x.e, 0, N * N); mat(y.e, N * N, N * N); \
    OP("madd") { T r = x + y; if (w) { r = x; r += y; } putn(r.e, N * N); return 1; } OP("msub") { T r = x - y; if (w) { r = x; r -= y; } putn(r.e, N * N); return 1; } \
    OP("mscale") { T r = w ? a(N * N) * x : x * a(N * N); putn(r.e, N * N); return 1; } }
    MOPS(2, zpl_mat2, zpl_vec2) MOPS(3, zpl_mat3, zpl_vec3) MOPS(4, zpl_mat4, zpl_vec4)
#endif
    OP("place") { zpl_mat4 m; if (n == 0) zpl_mat4_to_translate(&m, v3(0)); if (n == 1) zpl_mat4_to_scale(&m, v3(0)); if (n == 2) zpl_mat4_to_scalef(&m, a(0)); putn(m.e, 16); return 1; }
    OP("move") { zpl_mat4 m; mat(m.e, 0, 16); if (n == 0) zpl_mat4_translate(&m, v3(16)); if (n == 1) zpl_mat4_scale(&m, v3(16)); if (n == 2) zpl_mat4_scalef(&m, a(16)); putn(m.e, 16); return 1; }
    OP("qid") { zpl_quat q = zpl_quat_identity(); putn(q.e, 4); return 1; }
#define QB(x, fn) OP(x) { zpl_quat d = qt(0); if (w == 0) zpl_quat_##fn(&d, qt(0), qt(4)); else if (w == 1) zpl_quat_##fn##eq(&d, qt(4)); else { d = qt(4); zpl_quat_##fn(&d, qt(0), d); } putn(d.e, 4); return 1; }
    QB("qadd", add) QB("qsub", sub) QB("qmul", mul) QB("qdiv", div)
    OP("qmulf") { zpl_quat d = qt(0); if (w) zpl_quat_muleqf(&d, a(4)); else zpl_quat_mulf(&d, d, a(4)); putn(d.e, 4); return 1; }
    OP("qdivf") { zpl_quat d = qt(0); if (w) zpl_quat_diveqf(&d, a(4)); else zpl_quat_divf(&d, d, a(4)); putn(d.e, 4); return 1; }
    OP("qdot") { put(zpl_quat_dot(qt(0), qt(4))); return 1; }
    OP("qconj") { zpl_quat d = qt(0); zpl_quat_conj(&d, d); putn(d.e, 4); return 1; }
    OP("qinv") { zpl_quat d = qt(0); zpl_quat_inverse(&d, d); putn(d.e, 4); return 1; }
    OP("qrot") { zpl_vec3 d; zpl_quat_rotate_vec3(&d, qt(0), v3(4)); putn(d.e, 3); return 1; }
    OP("qmat") { zpl_mat4 m; zpl_mat4_from_quat(&m, qt(0)); putn(m.e, 16); return 1; }
    OP("matq") { zpl_mat4 m; zpl_quat q; zpl_mat4_from_quat(&m, qt(0)); zpl_quat_from_mat4(&q, &m); putn(q.e, 4); return 1; }
    OP("plane") { zpl_plane p; p.a = a(0); p.b = a(1); p.c = a(2); p.d = a(3); put(zpl_plane_distance(&p, v3(4))); return 1; }
    OP("frustum") { /* projection, camera, point */ zpl_mat4 p, c; mat(p.e, 0, 16); mat(c.e, 16, 16); zpl_frustum fr; zpl_frustum_create(&fr, &c, &p); put(zpl_frustum_point_inside(&fr, v3(32))); return 1; }
    OP("fsphere") { zpl_mat4 p, c; mat(p.e, 0, 16); mat(c.e, 16, 16); zpl_frustum fr; zpl_frustum_create(&fr, &c, &p); put(zpl_frustum_sphere_inside(&fr, v3(32), a(35))); return 1; }
    OP("fbox") { zpl_mat4 p, c; mat(p.e, 0, 16); mat(c.e, 16, 16); zpl_frustum fr; zpl_frustum_create(&fr, &c, &p); zpl_aabb3 b = zpl_aabb3f(a(32), a(33), a(34), a(35), a(36), a(37)); put(zpl_frustum_box_inside(&fr, b)); return 1; }
    OP("rect") { if (n == 2) put_b2(zpl_aabb2_rect2(r2(0))); else { zpl_aabb3 b = zpl_aabb3_rect3(zpl_rect3f(v3(0), v3(3))); putn(b.min.e, 3); putn(b.max.e, 3); } return 1; }
    OP("unrect") { if (n == 2) { zpl_rect2 r = zpl_rect2_aabb2(b2(0)); putn(r.pos.e, 2); putn(r.dim.e, 2); } else { zpl_rect3 r = zpl_rect3_aabb3(zpl_aabb3f(a(0), a(1), a(2), a(3), a(4), a(5))); putn(r.pos.e, 3); putn(r.dim.e, 3); } return 1; }
    OP("rhas") { put(!!(w ? zpl_rect2_contains_vec2(r2(0), v2(4)) : zpl_rect2_contains(r2(0), a(4), a(5)))); return 1; }
    OP("meet") { zpl_rect2 r = r2(0); put(!!(w ? zpl_rect2_intersection_result(r, r2(4), &r) : zpl_rect2_intersects(r2(0), r2(4)))); if (w) { putn(r.pos.e, 2); putn(r.dim.e, 2); } return 1; }
    OP("ahas") { put(!!(n == 2 ? zpl_aabb2_contains(b2(0), a(4), a(5)) : zpl_aabb3_contains(zpl_aabb3f(a(0), a(1), a(2), a(3), a(4), a(5)), a(6), a(7), a(8)))); return 1; }
    OP("cut") { zpl_aabb2 b = b2(0), r = n == 0 ? zpl_aabb2_cut_left(&b, a(4)) : n == 1 ? zpl_aabb2_cut_right(&b, a(4)) : n == 2 ? zpl_aabb2_cut_top(&b, a(4)) : zpl_aabb2_cut_bottom(&b, a(4)); put_b2(r); put_b2(b); return 1; }
    OP("get") { zpl_aabb2 b = b2(0), r = n == 0 ? zpl_aabb2_get_left(&b, a(4)) : n == 1 ? zpl_aabb2_get_right(&b, a(4)) : n == 2 ? zpl_aabb2_get_top(&b, a(4)) : zpl_aabb2_get_bottom(&b, a(4)); put_b2(r); put_b2(b); return 1; }
    OP("addside") { zpl_aabb2 b = b2(0), r = n == 0 ? zpl_aabb2_add_left(&b, a(4)) : n == 1 ? zpl_aabb2_add_right(&b, a(4)) : n == 2 ? zpl_aabb2_add_top(&b, a(4)) : zpl_aabb2_add_bottom(&b, a(4)); put_b2(r); put_b2(b); return 1; }
    OP("contract") { zpl_aabb2 b = b2(0); put_b2(zpl_aabb2_contract(&b, a(4))); return 1; }
    OP("expand") { zpl_aabb2 b = b2(0); put_b2(zpl_aabb2_expand(&b, a(4))); return 1; }
    /* approximate ones, in thousandths; angles come in degrees */
    OP("~mag") { put(n == 2 ? zpl_vec2_mag(v2(0)) : n == 3 ? zpl_vec3_mag(v3(0)) : w ? zpl_quat_mag(qt(0)) : zpl_vec4_mag(v4(0))); return 1; }
    OP("~norm") { if (n == 2) { zpl_vec2 d; if (w) zpl_vec2_norm0(&d, v2(0)); else zpl_vec2_norm(&d, v2(0)); putn(d.e, 2); } if (n == 3) { zpl_vec3 d; if (w) zpl_vec3_norm0(&d, v3(0)); else zpl_vec3_norm(&d, v3(0)); putn(d.e, 3); }
        if (n == 4) { if (w == 2) { zpl_quat q; zpl_quat_norm(&q, qt(0)); putn(q.e, 4); } else { zpl_vec4 d; if (w) zpl_vec4_norm0(&d, v4(0)); else zpl_vec4_norm(&d, v4(0)); putn(d.e, 4); } } return 1; }
    OP("~refract") { if (n == 2) { zpl_vec2 d; zpl_vec2_refract(&d, v2(0), v2(2), a(4)); putn(d.e, 2); } else { zpl_vec3 d; zpl_vec3_refract(&d, v3(0), v3(3), a(6)); putn(d.e, 3); } return 1; }
    OP("~turn") { /* rotation matrix applied to a point: axis, degrees, point */ zpl_mat4 m; if (w == 0) zpl_mat4_axis_angle(&m, v3(0), deg(a(3))); else if (w == 1) zpl_mat4_to_rotate(&m, v3(0), deg(a(3))); else if (w == 2) { zpl_mat4_identity(&m); zpl_mat4_rotate(&m, v3(0), deg(a(3))); } else { zpl_quat q = zpl_quat_axis_angle(v3(0), deg(a(3))); zpl_mat4_from_quat(&m, q); }
        if (w < 4) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, &m, zpl_vec4f(a(4), a(5), a(6), 1)); putn(r.e, 3); } else { zpl_quat q = zpl_quat_axis_angle(v3(0), deg(a(3))); zpl_vec3 r; zpl_quat_rotate_vec3(&r, q, v3(4)); putn(r.e, 3); } return 1; }
    OP("~axis") { zpl_quat q = zpl_quat_axis_angle(v3(0), deg(a(3))); if (w) zpl_quat_muleqf(&q, 2); zpl_vec3 x; zpl_quat_axis(&x, q); putn(x.e, 3); put(zpl_quat_angle(q)); return 1; }
    OP("~euler") { zpl_quat q = zpl_quat_euler_angles(deg(a(0)), deg(a(1)), deg(a(2))); put(zpl_quat_pitch(q)); put(zpl_quat_yaw(q)); put(zpl_quat_roll(q)); return 1; }
    OP("~eulerq") { zpl_quat q = zpl_quat_euler_angles(deg(a(0)), deg(a(1)), deg(a(2))); putn(q.e, 4); return 1; }
    OP("~slerp") { /* axis, degrees from, degrees to, t */ zpl_quat p = zpl_quat_axis_angle(v3(0), deg(a(3))), q = zpl_quat_axis_angle(v3(0), deg(a(4))), d; if (n == 1) { q.x = -q.x; q.y = -q.y; q.z = -q.z; q.w = -q.w; } if (w == 0) zpl_quat_slerp(&d, p, q, a(5)); else if (w == 1) zpl_quat_nlerp(&d, p, q, a(5)); else zpl_quat_slerp_approx(&d, p, q, a(5)); putn(d.e, 4); return 1; }
    OP("~squad") { /* four rotations about one axis, t in {0,1} */ zpl_quat q[4], d; for (int k = 0; k < 4; k++) q[k] = zpl_quat_axis_angle(v3(0), deg(a(3 + k))); if (w == 0) zpl_quat_squad(&d, q[0], q[1], q[2], q[3], a(7)); else if (w == 1) zpl_quat_nquad(&d, q[0], q[1], q[2], q[3], a(7)); else zpl_quat_squad_approx(&d, q[0], q[1], q[2], q[3], a(7)); putn(d.e, 4); return 1; }
    OP("~look") { /* eye, centre, up: where the eye, the centre, eye + up and eye + side end up */ zpl_mat4 m; zpl_vec3 e = v3(0), c = v3(3), u = v3(6), f, s; if (w) zpl_mat4_look_at_lh(&m, e, c, u); else zpl_mat4_look_at(&m, e, c, u);
        f = zpl_vec3f(c.x - e.x, c.y - e.y, c.z - e.z); s = zpl_vec3f(f.y * u.z - f.z * u.y, f.z * u.x - f.x * u.z, f.x * u.y - f.y * u.x); if (w) s = zpl_vec3f(-s.x, -s.y, -s.z);
        zpl_vec3 p[4] = { e, c, { e.x + u.x, e.y + u.y, e.z + u.z }, { e.x + s.x, e.y + s.y, e.z + s.z } };
        for (int k = 0; k < 4; k++) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, &m, zpl_vec4f(p[k].x, p[k].y, p[k].z, 1)); putn(r.e, 4); } return 1; }
    OP("~persp") { /* degrees, aspect, near, far: the corner at the near plane, the corner at the far plane, divided */ zpl_mat4 m; F fy = deg(a(0)), as = a(1), ne = a(2), fa = a(3), t = tanf(fy / 2);
        if (w == 0) zpl_mat4_perspective(&m, fy, as, ne, fa); if (w == 1) zpl_mat4_infinite_perspective(&m, fy, as, ne); if (w == 2) zpl_mat4_perspective_dx(&m, fy, as, ne, fa); if (w == 3) zpl_mat4_infinite_perspective_dx(&m, fy, as, ne);
        F z[2] = { ne, w & 1 ? ne * 100000 : fa }; for (int k = 0; k < 2; k++) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, &m, zpl_vec4f(as * t * z[k], t * z[k], -z[k], 1)); put(r.x / r.w); put(r.y / r.w); put(r.z / r.w); } return 1; }
    OP("~ortho") { /* left right bottom top near far: where two opposite corners end up */ zpl_mat4 m; if (w == 0) zpl_mat4_ortho3d(&m, a(0), a(1), a(2), a(3), a(4), a(5)); if (w == 1) zpl_mat4_ortho2d(&m, a(0), a(1), a(2), a(3)); if (w == 2) zpl_mat4_ortho3d_dx(&m, a(0), a(1), a(2), a(3), a(4), a(5)); if (w == 3) zpl_mat4_ortho2d_dx(&m, a(0), a(1), a(2), a(3));
        for (int k = 0; k < 2; k++) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, &m, zpl_vec4f(a(k), a(2 + k), w & 1 ? (k ? -1 : 1) : -a(4 + k), 1)); putn(r.e, 4); } return 1; }
    /* scalars */
    OP("floor") { put(w ? zpl_floor64(A[0]) : zpl_floor(a(0))); return 1; } OP("ceil") { put(w ? zpl_ceil64(A[0]) : zpl_ceil(a(0))); return 1; } OP("round") { put(w ? zpl_round64(A[0]) : zpl_round(a(0))); return 1; }
    OP("rem") { put(w ? zpl_remainder64(A[0], A[1]) : zpl_remainder(a(0), a(1))); return 1; } OP("mod") { put(w ? zpl_mod64(A[0], A[1]) : zpl_mod(a(0), a(1))); return 1; }
    OP("copysign") { put(w ? zpl_copy_sign64(A[0], A[1]) : zpl_copy_sign(a(0), a(1))); return 1; } OP("sign") { put(w == 0 ? zpl_sign(a(0)) : zpl_sign64(A[0])); return 1; } OP("sign0") { put(zpl_sign0(a(0))); return 1; } OP("abs") { put(w ? zpl_abs64(A[0]) : zpl_abs(a(0))); return 1; }
    OP("clamp") { put(zpl_clamp(a(0), a(1), a(2))); return 1; } OP("clamp01") { put(zpl_clamp01(a(0))); return 1; } OP("min") { put(n == 2 ? zpl_min(a(0), a(1)) : zpl_min3(a(0), a(1), a(2))); return 1; } OP("max3") { put(n == 2 ? zpl_max(a(0), a(1)) : zpl_max3(a(0), a(1), a(2))); return 1; }
    OP("between") { put(w ? zpl_is_between_limit(a(0), a(1), a(2)) : zpl_is_between(a(0), a(1), a(2))); return 1; }
    OP("~rad") { put(zpl_to_radians(a(0))); return 1; } OP("~deg") { put(zpl_to_degrees(deg(a(0)))); return 1; } OP("~diff") { put(zpl_angle_diff(deg(a(0)), deg(a(1)))); return 1; }
    OP("~sin") { put(zpl_sin(deg(a(0)))); put(zpl_cos(deg(a(0)))); return 1; } OP("~tan") { put(zpl_tan(deg(a(0)))); return 1; }
    OP("~asin") { F s = zpl_sin(deg(a(0))); put(zpl_arcsin(s)); return 1; } OP("~acos") { F s = zpl_cos(deg(a(0))); put(zpl_arccos(s)); return 1; } OP("~atan") { put(zpl_arctan(zpl_tan(deg(a(0))))); return 1; } OP("~atan2") { put(zpl_arctan2(2 * zpl_sin(deg(a(0))), 2 * zpl_cos(deg(a(0))))); return 1; }
    OP("~sqrt") { put(w == 0 ? zpl_sqrt(a(0)) : zpl_sqrt(a(0))); return 1; } OP("~rsqrt") { put(w ? zpl_quake_rsqrt(a(0)) : zpl_rsqrt(a(0))); return 1; } OP("~hypot") { put(zpl_hypot(a(0), a(1))); return 1; }
    OP("~pow") { put(zpl_pow(a(0), a(1))); return 1; } OP("~exp2") { put(w ? zpl_fast_exp2(a(0)) : zpl_exp2(a(0))); return 1; } OP("~log2") { put(zpl_log2(a(0))); return 1; } OP("~explog") { put(zpl_log(zpl_exp(a(0)))); put(zpl_exp(zpl_log(a(0)))); return 1; }
    return 0;
}
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (is("seg")) vp_seg();
        else if (is("f")) { const char *f = vp_tok[1]; int n = (int)ai(2), w = (int)ai(3); double den = (double)ai(4); no = 0; apx = f[0] == '~'; memset(A, 0, sizeof A); nA = vp_ntok - 5; for (int i = 0; i < nA; i++) A[i] = (double)ai(5 + i) / den;
            if (!op(f, n, w)) vp_bad();
            ev("f"); ev_name("f", apx ? f + 1 : f); ev_int("n", n); ev_int("w", w); ev_int("d", ai(4)); ev_bool("apx", apx); ev_arr("a"); for (int i = 0; i < nA; i++) ev_item(ai(5 + i)); ev_arrend(); ev_arr("r"); for (int i = 0; i < no; i++) ev_item(out[i]); ev_arrend(); ev_end(); }
        else if (is("half")) { /* every half in a range: as a float, and back */ for (int h = (int)ai(1); h <= (int)ai(2); h++) { F x = zpl_half_to_float((zpl_half)h); uint32_t b; memcpy(&b, &x, 4); ev("half"); ev_int("h", h); ev_u32("x", b); ev_int("back", (uint16_t)zpl_float_to_half(x)); ev_end(); } }
        else if (is("tohalf")) { uint32_t b = (uint32_t)au(1); F x; memcpy(&x, &b, 4); ev("tohalf"); ev_u32("x", b); ev_int("h", (uint16_t)zpl_float_to_half(x)); ev_end(); }
        else vp_bad();
    }
    _exit(0);
}
