// Film and textures.
#include "common.h"
#include <lm/parallelcontext.h>

#include <lm/film.h>
#include <lm/texture.h>
using namespace hx;
static void par(int n) { vpt_set_hwc(2); Json p; p["num_threads"] = n; parallel::init("openmp", p); }
static Component::Ptr<Film> mk(int w, int h) { Json p; p["w"] = w; p["h"] = h; return comp::create<Film>("film::bitmap", "", p); }
static Vec3 px(const FilmBuffer& b, int x, int y) { const Float* d = b.data + 3 * (y * b.w + x); return Vec3(d[0], d[1], d[2]); }
static Vec3 rgb(const char* n) { return vec(n); }
static const int dims[3][2] = {{3, 2}, {2, 3}, {1, 1}};
// ------------------------------------------------------------------ film, one thread
VP_ENTRY(film_pixels) { // every operation changes the addressed pixel only, as specified
    int k = vp_choice("dims", 3), w = dims[k][0], h = dims[k][1]; auto f = mk(w, h);
    auto sz = f->size(); vp_assert(sz.w == w && sz.h == h && f->num_pixels() == w * h, "size"); eq(f->aspect(), double(w) / h, "aspect");
    int x = vp_choice("x", w), y = vp_choice("y", h), x2 = vp_choice("x2", w), y2 = vp_choice("y2", h); Vec3 a = rgb("a"), b = rgb("b"), c = rgb("c");
    f->set_pixel(x, y, a); f->splat_pixel(x2, y2, b); f->update_pixel(x, y, [&](Vec3 v) { return v * 2. + c; });
    auto B = f->buffer(); vp_assert(B.w == w && B.h == h, "buffer-size");
    for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) { Vec3 e(0); bool p1 = i == x && j == y, p2 = i == x2 && j == y2; if (p1) e = a; if (p2) e += b; if (p1) e = e * 2. + c; eq3(px(B, i, j), e, "pixel-value"); }
    f->set_pixel(x2, y2, a); eq3(px(f->buffer(), x2, y2), a, "set-overwrites");
    f->clear(); B = f->buffer(); for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) eq3(px(B, i, j), Vec3(0), "clear");
    vp_assert(B.w == w && B.h == h && f->num_pixels() == w * h, "size-after-clear");
}
VP_ENTRY(film_rescale) { par(1 + vp_choice("threads", 2)); vp_sched(1); auto f = mk(2, 2); Vec3 a = rgb("a"), b = rgb("b"); double s = vp_real("s"); f->set_pixel(0, 0, a); f->set_pixel(1, 1, b); f->rescale(s); auto B = f->buffer(); eq3(px(B, 0, 0), a * s, "rescaled"); eq3(px(B, 1, 1), b * s, "rescaled"); eq3(px(B, 1, 0), Vec3(0), "rescaled"); parallel::shutdown(); }
VP_ENTRY(film_accum) { // adds films of equal size, leaves the film alone otherwise
    auto f = mk(2, 2); int k = vp_choice("other", 4); int ws[] = {2, 1, 2, 4}, hs[] = {2, 2, 1, 1}; auto g = mk(ws[k], hs[k]); Vec3 a = rgb("a"), b = rgb("b"), c = rgb("c");
    f->set_pixel(0, 1, a); f->set_pixel(0, 0, c); g->set_pixel(0, hs[k] - 1, b); f->accum(g.get()); auto B = f->buffer(); eq3(px(B, 0, 1), k == 0 ? a + b : a, "accumulated"); eq3(px(B, 0, 0), c, "accumulated"); eq3(px(B, 1, 1), Vec3(0), "accumulated"); eq3(px(g->buffer(), 0, hs[k] - 1), b, "source-unchanged");
}
VP_ENTRY(film_raster) { // raster position to pixel: the pixel containing the position, clamped outside
    int k = vp_choice("dims", 3), w = dims[k][0], h = dims[k][1]; auto f = mk(w, h); double u = vp_real_in("u", -1, 2), v = vp_real_in("v", 0, 1); auto p = f->raster_to_pixel(Vec2(u, v));
    vp_assert(p.x >= 0 && p.x < w && p.y >= 0 && p.y < h, "pixel-in-film");
    if (u >= 0 && u < 1) vp_assert(p.x <= u * w && u * w < p.x + 1, "pixel-contains-position"); if (v < 1) vp_assert(p.y <= v * h && v * h < p.y + 1, "pixel-contains-position");
    if (u < 0) vp_assert(p.x == 0, "clamped"); if (u >= 1) vp_assert(p.x == w - 1, "clamped"); if (v >= 1) vp_assert(p.y == h - 1, "clamped");
    Vec3 a = rgb("a"); f->splat(Vec2(u, v), a); auto B = f->buffer(); for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) eq3(px(B, i, j), i == p.x && j == p.y ? a : Vec3(0), "splat-position");
}
VP_ENTRY(film_average) { // incremental average of a sequence of samples
    auto f = mk(2, 1); Vec3 s(0); for (int i = 0; i < 4; i++) { Vec3 v = rgb(("v" + std::to_string(i)).c_str()); s += v; f->inc_ave(Vec2(.75, .5), i, v); eq3(px(f->buffer(), 1, 0) * double(i + 1), s, "average-of-samples"); } eq3(px(f->buffer(), 0, 0), Vec3(0), "other-pixel");
}
// ------------------------------------------------------------------ film, several threads
VP_ENTRY(film_concurrent_splat) { par(2); vp_sched(2); auto f = mk(2, 1); Vec3 v[3] = {rgb("a"), rgb("b"), rgb("c")}; parallel::foreach(3, [&](long long i, int) { f->splat_pixel(1, 0, v[i]); }); eq3(px(f->buffer(), 1, 0), v[0] + v[1] + v[2], "nothing-lost"); eq3(px(f->buffer(), 0, 0), Vec3(0), "other-pixel"); parallel::shutdown(); }
VP_ENTRY(film_concurrent_splat3) { par(3); vp_sched(2); auto f = mk(1, 1); Vec3 v[3] = {rgb("a"), rgb("b"), rgb("c")}; parallel::foreach(3, [&](long long i, int) { f->splat(Vec2(.5, .5), v[i]); }); eq3(px(f->buffer(), 0, 0), v[0] + v[1] + v[2], "nothing-lost"); parallel::shutdown(); }
VP_ENTRY(film_concurrent_update) { // updates with a function of the current value: some order of complete updates
    par(2); vp_sched(2); auto f = mk(1, 1); Vec3 a = rgb("a"), b = rgb("b"); f->set_pixel(0, 0, Vec3(1)); parallel::foreach(2, [&](long long i, int) { if (i == 0) f->update_pixel(0, 0, [&](Vec3 c) { return c * 3. + a; }); else f->update_pixel(0, 0, [&](Vec3 c) { return c * 5. + b; }); });
    Vec3 r = px(f->buffer(), 0, 0), e1 = (Vec3(3) + a) * 5. + b, e2 = (Vec3(5) + b) * 3. + a; vp_assert(r.x == e1.x || r.x == e2.x, "updates-in-some-order"); bool o1 = r.x == e1.x && r.y == e1.y && r.z == e1.z, o2 = r.x == e2.x && r.y == e2.y && r.z == e2.z; vp_assert(o1 || o2, "updates-in-some-order"); parallel::shutdown(); }
VP_ENTRY(film_concurrent_set) { // a set and a splat: either order, never a torn value
    par(2); vp_sched(2); auto f = mk(1, 1); Vec3 a = rgb("a"), b = rgb("b"); parallel::foreach(2, [&](long long i, int) { if (i == 0) f->set_pixel(0, 0, a); else f->splat_pixel(0, 0, b); });
    Vec3 r = px(f->buffer(), 0, 0); bool o1 = r.x == a.x && r.y == a.y && r.z == a.z, o2 = r.x == a.x + b.x && r.y == a.y + b.y && r.z == a.z + b.z; vp_assert(o1 || o2, "set-and-splat-in-some-order"); parallel::shutdown(); }
// ------------------------------------------------------------------ saving: the file layer is replaced by these recorders
static std::vector<unsigned char> g_bytes; static std::vector<float> g_floats; static int g_w, g_h, g_comp, g_open, g_fail; static std::string g_path;
extern "C" {
int vpr_stbi_write_png(const char* path, int w, int h, int comp, const void* d, int stride) { if (g_fail) return 0; g_path = path; g_w = w; g_h = h; g_comp = comp; g_bytes.clear(); for (int y = 0; y < h; y++) for (int i = 0; i < w * comp; i++) g_bytes.push_back(((const unsigned char*)d)[y * stride + i]); return 1; }
int vpr_stbi_write_hdr(const char* path, int w, int h, int comp, const float* d) { if (g_fail) return 0; g_path = path; g_w = w; g_h = h; g_comp = comp; g_floats.clear(); for (int i = 0; i < w * h * comp; i++) g_floats.push_back(d[i]); return 1; }
FILE* vpr_fopen(const char* path, const char*) { if (g_fail) return nullptr; g_path = path; g_open++; g_floats.clear(); return (FILE*)&g_open; }
int vpr_fprintf(FILE*, const char*, int w, int h) { g_w = w; g_h = h; return 8; }
size_t vpr_fwrite(const void* p, size_t sz, size_t n, FILE*) { for (size_t i = 0; i < sz * n / 4; i++) g_floats.push_back(((const float*)p)[i]); return n; }
int vpr_fclose(FILE*) { g_open--; return 0; }
}
VP_ENTRY(film_save_float) { // .pfm is stored bottom row first, .hdr top row first; pixel (0,0) is the bottom left one
    const int w = 2, h = 3; auto f = mk(w, h); Vec3 v[h][w]; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { v[y][x] = Vec3(0); } int x = vp_choice("x", w), y = vp_choice("y", h); v[y][x] = Vec3(vp_real_in("r", -1e6, 1e6), vp_real_in("g", -1e6, 1e6), vp_real_in("b", -1e6, 1e6)); f->set_pixel(x, y, v[y][x]);
    bool hdr = vp_choice("hdr", 2); g_fail = vp_choice("fail", 2); g_w = g_h = -1; bool ok = f->save(hdr ? "out.hdr" : "out.pfm"); vp_assert(ok == !g_fail, "reports-failure"); if (!ok) return;
    vp_assert(g_w == w && g_h == h && g_open == 0 && g_floats.size() == w * h * 3 && g_path == (hdr ? "out.hdr" : "out.pfm"), "image-written");
    for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) for (int c = 0; c < 3; c++) { int row = hdr ? h - 1 - j : j; vp_assert_near(g_floats[3 * (row * w + i) + c], v[j][i][c], 1e-6, "stored-pixel"); }
}
VP_ENTRY(film_save_png) { // gamma 2.2, clamped to bytes, top row first
    const int w = 2, h = 2; auto f = mk(w, h); int x = vp_choice("x", w), y = vp_choice("y", h), k = vp_choice("k", 6); const double in[] = {0, 1, 4, 0.5, 0.01, 0.9}; const int out[] = {0, 255, 255, 186, 31, 244}; f->set_pixel(x, y, Vec3(in[k], in[(k + 1) % 6], 0));
    bool ok = f->save("out.png"); vp_assert(ok && g_w == w && g_h == h && g_comp == 3 && g_bytes.size() == w * h * 3, "image-written"); int row = h - 1 - y;
    for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) for (int c = 0; c < 3; c++) { bool p = j == row && i == x; int e = p ? (c == 0 ? out[k] : c == 1 ? out[(k + 1) % 6] : 0) : 0; vp_assert(g_bytes[3 * (j * w + i) + c] == e, "stored-pixel"); }
}
VP_ENTRY(film_save_unknown) { auto f = mk(1, 1); vp_assert(!f->save(vp_choice("ext", 2) ? "out.xyz" : "out"), "unknown-format-refused"); }
// ------------------------------------------------------------------ textures: the image decoder is replaced by this source
static float g_img[64]; static int g_tw, g_th, g_tc, g_flip;
extern "C" {
void vpr_stbi_set_flip_vertically_on_load(int f) { g_flip = f; }
float* vpr_stbi_loadf(const char* path, int* w, int* h, int* c, int) { g_path = path; if (g_fail) return nullptr; *w = g_tw; *h = g_th; *c = g_tc; int n = g_tw * g_th * g_tc; float* d = (float*)malloc(n * sizeof(float)); for (int y = 0; y < g_th; y++) for (int i = 0; i < g_tw * g_tc; i++) d[y * g_tw * g_tc + i] = g_img[(g_flip ? g_th - 1 - y : y) * g_tw * g_tc + i]; return d; }
void vpr_stbi_image_free(void* p) { free(p); }
const char* vpr_stbi_failure_reason() { return ""; }
}
static Vec3 texel(int x, int y, bool flip) { const float* d = g_img + ((flip ? g_th - 1 - y : y) * g_tw + x) * g_tc; return g_tc >= 3 ? Vec3(d[0], d[1], d[2]) : Vec3(d[0]); }
static Component::Ptr<Texture> tex(int w, int h, int c, int flip) { g_fail = 0; g_tw = w; g_th = h; g_tc = c; for (int i = 0; i < w * h * c; i++) g_img[i] = vp_real_in(("t" + std::to_string(i)).c_str(), -1e6, 1e6); Json p; p["path"] = "a\\b.png"; if (flip < 2) p["flip"] = flip == 1; return comp::create<Texture>("texture::bitmap", "", p); }
static void texcoord(int c) {
    int flip = 1 + vp_choice("flip", 2); auto t = tex(3, 2, c, flip); 
    double u = vp_real_in("u", -1, 2), v = vp_real_in("v", -1, 1); Vec3 r = t->eval(Vec2(u, v)); int i = 0, j = 0; double U = u - floor(u), V = v - floor(v); while (i < 2 && U * 3 >= i + 1) i++; while (j < 1 && V * 2 >= j + 1) j++;
    eq3(r, texel(i, j, true), "texel-of-coordinates"); if (c == 4) eq(t->eval_alpha(Vec2(u, v)), g_img[((1 - j) * 3 + i) * 4 + 3], "alpha-of-coordinates");
}
VP_ENTRY(texture_rgb) { texcoord(3); }
VP_ENTRY(texture_rgba) { texcoord(4); }
VP_ENTRY(texture_gray) { texcoord(1 + vp_choice("c", 2)); }
VP_ENTRY(texture_texels) {
    int flip = vp_choice("flip", 3), c = 1 + vp_choice("c", 4); auto t = tex(3, 2, c, flip); vp_assert(t && t->size().w == 3 && t->size().h == 2, "size"); vp_assert(g_path == "a/b.png", "separators"); bool fl = flip != 0;
    int x = vp_choice("x", 3), y = vp_choice("y", 2); eq3(t->eval_by_pixel_coords(x, y), texel(x, y, fl), "texel-by-index"); vp_assert(t->has_alpha() == (c == 4), "has-alpha");
    auto b = t->buffer(); vp_assert(b.w == 3 && b.h == 2 && b.c == c, "buffer"); for (int q = 0; q < c; q++) eq(b.data[(y * 3 + x) * c + q], g_img[((fl ? 1 - y : y) * 3 + x) * c + q], "buffer");
}
VP_ENTRY(texture_missing) { g_fail = 1; bool ok = true; Json p; p["path"] = "none.png"; try { auto t = comp::create<Texture>("texture::bitmap", "", p); ok = (bool)t; } catch (...) { ok = false; } vp_assert(!ok, "missing-image-refused"); }
VP_ENTRY(texture_constant) { Vec3 c = rgb("c"); Json p; p["color"] = j3(c); int a = vp_choice("alpha", 2); double al = vp_real("al"); if (a) p["alpha"] = al; auto t = comp::create<Texture>("texture::constant", "", p); vp_assert(t->size().w == 1 && t->size().h == 1 && t->has_alpha() == (a == 1), "constant"); eq3(t->eval(Vec2(vp_real("u"), vp_real("v"))), c, "constant"); eq3(t->eval_by_pixel_coords(0, 0), c, "constant"); if (a) eq(t->eval_alpha(Vec2(.5, .5)), al, "constant"); }
// ------------------------------------------------------------------ saving and loading a bitmap texture
#include <lm/serial.h>
#include <fstream>
extern "C" int getpid(); extern "C" int unlink(const char*);
VP_ENTRY(texture_saved) { int c = 1 + vp_choice("c", 4); auto t = tex(3, 2, c, 1); std::string f = vp_is_symbolic_run() ? std::string("f") : "/tmp/vp-image-" + std::to_string(getpid()); { std::ofstream os(f, std::ios::out | std::ios::binary); OutputArchive ar(os); t->save(ar); } auto u = comp::detail::create_comp("texture::bitmap"); vp_assert(u, "created"); { std::ifstream is(f, std::ios::in | std::ios::binary); InputArchive ar(is); u->load(ar); } if (!vp_is_symbolic_run()) unlink(f.c_str()); Component::Ptr<Texture> v(dynamic_cast<Texture*>(u)); vp_assert(v && v->size().w == 3 && v->size().h == 2 && v->has_alpha() == t->has_alpha(), "size"); for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) { eq3(v->eval_by_pixel_coords(x, y), t->eval_by_pixel_coords(x, y), "texel"); if (c == 4) eq(v->eval_alpha(Vec2((x + 0.5) / 3, (y + 0.5) / 2)), t->eval_alpha(Vec2((x + 0.5) / 3, (y + 0.5) / 2)), "alpha"); } }
