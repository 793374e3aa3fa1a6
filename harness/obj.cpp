// Wavefront OBJ/MTL reader, triangle meshes and OBJ models.
#include "common.h"
#include <lm/assetgroup.h>
#include <lm/objloader.h>
#include <lm/mesh.h>
#include <lm/model.h>
#include <lm/texture.h>
#include <lm/serial.h>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace lm; using namespace hx; using namespace lm::objloader;
// scratch directory (a name prefix in the in-memory file system of the symbolic run)
struct Dir { std::string d; std::vector<std::string> fs; Dir() { if (vp_is_symbolic_run()) d = "d/"; else { d = "/tmp/vp-obj-" + std::to_string(getpid()) + "/"; mkdir(d.c_str(), 0700); } }
    std::string put(const char* n, const std::string& s) { std::string p = d + n; std::ofstream f(p, std::ios::out | std::ios::binary); f.rdbuf()->sputn(s.data(), s.size()); f.close(); fs.push_back(p); return p; }
    ~Dir() { if (!vp_is_symbolic_run()) { for (auto& f : fs) unlink(f.c_str()); rmdir(d.c_str()); } } };
static std::string num(double v) { char b[40]; vp_num_text(b, v); return b; }
static std::string num(int v) { char b[40]; vp_int_text(b, v); return b; }
static std::string n3(Vec3 v) { return num(v.x) + " " + num(v.y) + " " + num(v.z); }
struct Face { OBJMeshFaceIndex i[3]; std::string mat; };
struct Loaded { bool ok = false; OBJSurfaceGeometry geo; std::vector<Face> fs; std::vector<MTLMatParams> ms; std::vector<int> sizes; };
static Loaded load(const std::string& path, bool fresh = true, int refuseMesh = -1, int refuseMat = -1) { if (fresh) objloader::init(); Loaded r; r.ok = objloader::load(path, r.geo, [&](const OBJMeshFace& fs, const MTLMatParams& m) { r.sizes.push_back((int)fs.size()); vp_assert(fs.size() % 3 == 0, "whole-triangles"); for (size_t i = 0; i + 2 < fs.size(); i += 3) r.fs.push_back({{fs[i], fs[i + 1], fs[i + 2]}, m.name}); return (int)r.sizes.size() - 1 != refuseMesh; }, [&](const MTLMatParams& m) { r.ms.push_back(m); return (int)r.ms.size() - 1 != refuseMat; }); return r; }
static void eq2(Vec2 a, Vec2 b, const char* l) { eq(a.x, b.x, l); eq(a.y, b.y, l); }
static std::string geo_text(Vec3* p, int np, Vec3* n, int nn, Vec3* t, int nt) { std::string s; for (int i = 0; i < np; i++) s += "v " + n3(p[i]) + "\n"; for (int i = 0; i < nn; i++) s += "vn " + n3(n[i]) + "\n"; for (int i = 0; i < nt; i++) s += "vt " + num(t[i].x) + " " + num(t[i].y) + "\n"; return s; }
static const char* F1 = "v 0 0 0\nv 1 0 0\nv 0 1 0\n";
// ------------------------------------------------------------------ reader
VP_ENTRY(attributes) { Dir d; Vec3 p[3], n[2], t[2]; for (auto& x : p) x = vec("p"); for (auto& x : n) x = vec("n"); for (auto& x : t) x = vec("t"); static const char* sp[] = {" ", "  ", "\t", " \t"}; std::string a = sp[vp_choice("space", 4)], eol = vp_choice("crlf", 2) ? "\r\n" : "\n", s = "# comment\n" + eol + "o thing" + eol; for (int i = 0; i < 3; i++) { s += (i == 1 ? a : std::string()) + "v" + a + num(p[i].x) + a + num(p[i].y) + a + num(p[i].z) + eol; if (i < 2) s += "vn" + a + num(n[i].x) + a + num(n[i].y) + a + num(n[i].z) + eol + "vt" + a + num(t[i].x) + a + num(t[i].y) + (i ? a + num(t[i].z) : std::string()) + eol; } s += "s off" + eol + "vp 1 2 3" + eol; if (vp_choice("last-line-ends", 2)) s += "# end"; auto r = load(d.put("a.obj", s)); vp_assert(r.ok && r.geo.ps.size() == 3 && r.geo.ns.size() == 2 && r.geo.ts.size() == 2, "every-attribute-once"); if (!r.ok || r.geo.ps.size() != 3 || r.geo.ns.size() != 2 || r.geo.ts.size() != 2) return; for (int i = 0; i < 3; i++) eq3(r.geo.ps[i], p[i], "position"); for (int i = 0; i < 2; i++) { eq3(r.geo.ns[i], n[i], "normal"); eq2(r.geo.ts[i], Vec2(t[i]), "texture-coordinates"); } vp_assert(r.ms.size() == 1 && r.fs.empty(), "default-material"); }
static int ix(int i, int n) { return i < 0 ? n + i : i - 1; }
VP_ENTRY(face_indices) { Dir d; std::string s = "v 0 0 0\nv 1 0 0\nv 2 0 0\nv 3 0 0\nvn 0 0 1\nvn 0 1 0\nvt 0 0\nvt 1 0\nvt 2 0\n"; int form = vp_choice("form", 4), nv = 3 + vp_choice("quad", 2), w = vp_choice("which", nv); int P[4], T[4], N[4]; static const char* sp[] = {" ", "  ", "\t"}; std::string a = sp[vp_choice("space", 3)], l = "f"; for (int k = 0; k < nv; k++) { if (k == w) { P[k] = vp_int("p", -4, 4); T[k] = vp_int("t", -3, 3); N[k] = vp_int("n", -2, 2); vp_assume(P[k] != 0 && T[k] != 0 && N[k] != 0); } else { P[k] = k == 1 ? -1 : k + 1; T[k] = k == 2 ? -2 : 2; N[k] = k == 0 ? 1 : -1; } l += a + num(P[k]); if (form == 1) l += "/" + num(T[k]); if (form == 2) l += "//" + num(N[k]); if (form == 3) l += "/" + num(T[k]) + "/" + num(N[k]); } static const char* tail[] = {"", " ", "  ", "\r"}; auto r = load(d.put("a.obj", s + l + tail[vp_choice("tail", 4)] + "\n")); vp_assert(r.ok && (int)r.fs.size() == nv - 2, "triangle-or-quad"); if (!r.ok || (int)r.fs.size() != nv - 2) return; static const int q[2][3] = {{0, 1, 2}, {0, 2, 3}};
    for (int f = 0; f < nv - 2; f++) for (int k = 0; k < 3; k++) { auto i = r.fs[f].i[k]; int c = q[f][k]; vp_assert(i.p == ix(P[c], 4), "position-index"); vp_assert(i.t == ((form & 1) ? ix(T[c], 3) : -1), "texture-index"); vp_assert(i.n == ((form & 2) ? ix(N[c], 2) : -1), "normal-index"); } }
VP_ENTRY(relative_indices) { // relative indices count back from the attributes read so far
    Dir d; int before = 3 + vp_choice("before", 2), k = vp_int("k", 1, 3); std::string s; for (int i = 0; i < before; i++) s += "v 0 0 " + std::string(1, '0' + i) + "\n"; s += "f -" + std::string(1, '0' + vp_choice("i", 3) + 1) + " -2 -1\n"; std::string u = s; int first = (int)u[u.find("f -") + 3] - '0'; s += "v 0 0 7\nv 0 0 8\nf " + num(-k) + " -1 -2\n"; auto r = load(d.put("a.obj", s)); vp_assert(r.ok && r.fs.size() == 2, "faces"); if (r.fs.size() != 2) return; vp_assert(r.fs[0].i[0].p == before - first && r.fs[0].i[1].p == before - 2 && r.fs[0].i[2].p == before - 1, "counts-back-from-here"); vp_assert(r.fs[1].i[0].p == before + 2 - k && r.fs[1].i[1].p == before + 1 && r.fs[1].i[2].p == before, "counts-back-from-here"); }
VP_ENTRY(material_assignment) { // each face has the material named last; faces keep their order
    Dir d; d.put("m.mtl", "newmtl a\nKd 1 0 0\nnewmtl b\nKd 0 1 0\nnewmtl c\n"); bool lib_first = vp_choice("lib-first", 2); std::string s = lib_first ? std::string("mtllib m.mtl\n") + F1 : std::string(F1) + "mtllib m.mtl\n"; std::string cur = "a"; std::vector<std::string> want; int n = 4; for (int i = 0; i < n; i++) { int c = vp_choice("cmd", 4); if (c == 0) s += "g x\n"; else if (c == 1) { s += "usemtl b\n"; cur = "b"; } else if (c == 2) { s += "usemtl c\n"; cur = "c"; } else { s += want.size() % 2 ? "f 2 3 1\n" : "f 1 2 3\n"; want.push_back(cur); } } s += want.size() % 2 ? "f 2 3 1\n" : "f 1 2 3\n"; want.push_back(cur); auto r = load(d.put("a.obj", s)); vp_assert(r.ok && r.fs.size() == want.size(), "every-face-once"); vp_assert(r.ms.size() == 3 && r.ms[0].name == "a" && r.ms[1].name == "b" && r.ms[2].name == "c", "materials-in-order"); for (size_t i = 0; i < r.fs.size() && i < want.size(); i++) { vp_assert(r.fs[i].mat == want[i], "named-material"); vp_assert(r.fs[i].i[0].p == (i % 2 ? 1 : 0), "face-order"); } }
VP_ENTRY(material_values) { Dir d; Vec3 Kd = vec("Kd"), Ks = vec("Ks"), Ke = vec("Ke"); double Ni = vp_real("Ni"), Ns = vp_real("Ns"), an = vp_real("an"); int il = vp_int("illum", 0, 10), k = vp_choice("second-first", 2); std::string full = "newmtl full\n" + std::string("  Kd ") + n3(Kd) + "\n\tKs " + n3(Ks) + "\nKe " + n3(Ke) + "\nNi " + num(Ni) + "\nNs " + num(Ns) + "\naniso " + num(an) + "\nillum " + num(il) + "\nmap_Kd tex/a.png\n", empty = "newmtl empty\n# nothing\n"; d.put("m.mtl", k ? empty + full : full + empty); auto r = load(d.put("a.obj", std::string("mtllib m.mtl\n") + F1)); vp_assert(r.ok && r.ms.size() == 2, "materials"); if (r.ms.size() != 2) return; auto &m = r.ms[k], &e = r.ms[1 - k]; eq3(m.Kd, Kd, "Kd"); eq3(m.Ks, Ks, "Ks"); eq3(m.Ke, Ke, "Ke"); eq(m.Ni, Ni, "Ni"); eq(m.Ns, Ns, "Ns"); eq(m.an, an, "aniso"); vp_assert(m.illum == il && m.name == "full" && m.mapKd == "tex/a.png", "illum-name-map"); eq3(e.Kd, Vec3(0), "unset-is-zero"); eq3(e.Ks, Vec3(0), "unset-is-zero"); eq3(e.Ke, Vec3(0), "unset-is-zero"); eq(e.Ns, 0, "unset-is-zero"); eq(e.an, 0, "unset-is-zero"); vp_assert(e.illum == 0 && e.name == "empty" && e.mapKd.empty(), "unset-is-empty"); }
VP_ENTRY(bad_files) { Dir d; d.put("m.mtl", "newmtl a\n"); static const char* bad[] = {"mtllib nope.mtl\n", "mtllib m.mtl\nusemtl b\nf 1 2 3\n", "usemtl a\nf 1 2 3\n", "mtllib m.mtl\nusemtl \nf 1 2 3\n", "f 1 2\n", "f 1\n", "f \n", "f 1 0 3\n"}; int k = vp_choice("bad", 9); auto r = k == 8 ? load(d.d + "nope.obj") : load(d.put("a.obj", std::string(F1) + bad[k])); vp_assert(!r.ok, "refused"); auto q = load(d.put("b.obj", std::string(F1) + "f 1 2 3\n")); vp_assert(q.ok && q.fs.size() == 1 && q.ms.size() == 1 && q.ms[0].name == "default", "next-file-is-read"); if (q.ms.size() == 1) vp_assert(q.ms[0].Kd == Vec3(1) && q.ms[0].Ke == Vec3(0) && q.ms[0].mapKd.empty(), "default-material"); }
static void within(const Loaded& r) { for (auto& f : r.fs) for (auto& i : f.i) { vp_assert(i.p >= 0 && i.p < (int)r.geo.ps.size(), "position-exists"); vp_assert(i.t >= -1 && i.t < (int)r.geo.ts.size(), "texture-coordinates-exist"); vp_assert(i.n >= -1 && i.n < (int)r.geo.ns.size(), "normal-exists"); } }
VP_ENTRY(successive_files) { // what one file defined does not leak into the next one read by the same loader
    Dir d; d.put("m.mtl", "newmtl a\nKd 0.5 0.25 0\nnewmtl b\n"); d.put("n.mtl", "newmtl c\nnewmtl a\nKd 1 0.5 0.75\n"); static const char* first[] = {"mtllib m.mtl\nusemtl b\nf 1 2 3\n", "mtllib m.mtl\nusemtl z\nf 1 2 3\n", "mtllib m.mtl\nusemtl b\nf 1 2 9\n", "f 1 2 3\n"}; int i = vp_choice("first", 4), k = vp_choice("second", 4); auto p = load(d.put("a.obj", std::string(F1) + first[i])); vp_assert(p.ok == (i == 0 || i == 3), "first-file"); std::string s = F1; if (k == 0) s += "f 3 2 1\n"; else if (k == 1) s += "usemtl b\nf 1 2 3\n"; else if (k == 2) s += "mtllib n.mtl\nusemtl a\nf 3 2 1\n"; else s += "mtllib n.mtl\nusemtl b\nf 1 2 3\n"; auto q = load(d.put("b.obj", s), false); if (k == 1 || k == 3) { vp_assert(!q.ok, "unknown-material-refused"); return; } vp_assert(q.ok && q.fs.size() == 1 && q.geo.ps.size() == 3, "second-file"); if (q.fs.size() != 1) return; vp_assert(q.fs[0].i[0].p == 2 && q.fs[0].i[2].p == 0, "its-own-faces"); vp_assert(q.ms.size() == size_t(k ? 2 : 1) && q.fs[0].mat == (k ? "a" : "default"), "its-own-materials"); if (k && q.ms.size() == 2) vp_assert(q.ms[1].Kd == Vec3(1, 0.5, 0.75) && q.ms[0].name == "c", "its-own-materials"); }
VP_ENTRY(refused_parts) { // a part the caller refuses makes the file fail
    Dir d; d.put("m.mtl", "newmtl a\nnewmtl b\n"); int k = vp_choice("refused", 5); auto r = load(d.put("a.obj", std::string("mtllib m.mtl\n") + F1 + "usemtl a\nf 1 2 3\nusemtl b\nf 3 2 1\n"), true, k < 2 ? k : -1, k == 2 || k == 3 ? k - 2 : -1); vp_assert(r.ok == (k == 4), "fails-exactly-if-refused"); }
VP_ENTRY(any_index) { // whatever the indices, accepted faces refer to existing attributes
    Dir d; int P[3], T = vp_int("t", -100000, 100000), N = vp_int("n", -100000, 100000), w = vp_choice("where", 3); std::string s = std::string(F1) + "vn 0 0 1\nvt 0 0\nf"; for (int k = 0; k < 3; k++) { P[k] = k == w ? vp_int("p", -100000, 100000) : k + 1; s += " " + num(P[k]) + (k == w ? "/" + num(T) + "/" + num(N) : "/1/1"); } auto r = load(d.put("a.obj", s + "\n")); bool ok = P[w] >= -3 && P[w] <= 3 && P[w] != 0 && T >= -1 && T <= 1 && N >= -1 && N <= 1; if (ok) { vp_assert(r.ok && r.fs.size() == 1, "valid-face-accepted"); } if (P[w] == 0 || P[w] > 3 || P[w] < -3 || T > 1 || T < -1 || N > 1 || N < -1) vp_assert(!r.ok, "missing-attribute-refused"); within(r); if (!r.ok) vp_assert(r.fs.empty(), "nothing-from-a-bad-file"); }
static void bytes(const char* prefix, int n, bool obj) { Dir d; std::string s = prefix; for (int i = 0; i < n; i++) { int c = vp_u8("c"); vp_assume(c != 1 && c != 2); s += char(c); } if (obj) { auto r = load(d.put("a.obj", std::string(F1) + "vn 0 0 1\nvt 0 0\n" + s + "\nf 1 2 3\n")); if (r.ok) within(r); } else { d.put("m.mtl", std::string(vp_choice("named", 2) ? "newmtl a\n" : "") + s + "\n"); auto r = load(d.put("a.obj", "mtllib m.mtl\n")); } vp_reach("done"); }
VP_ENTRY(any_bytes_face) { bytes("f 1 2 ", 2, true); }
VP_ENTRY(any_bytes_line) { bytes("", 2, true); }
VP_ENTRY(any_bytes_mtl) { bytes("K", 2, false); }
VP_ENTRY(any_bytes_name) { bytes("usemtl", 2, true); }
VP_ENTRY(long_names) { Dir d; int len = vp_choice("long", 4), n = len == 0 ? 255 : len == 1 ? 256 : len == 2 ? 300 : 1000; std::string nm(n, 'x'); int k = vp_choice("where", 4); if (k == 0) { auto r = load(d.put("a.obj", std::string(F1) + "usemtl " + nm + "\nf 1 2 3\n")); vp_assert(!r.ok, "unknown-material-refused"); } else if (k == 1) { auto r = load(d.put("a.obj", "mtllib " + nm + "\n")); vp_assert(!r.ok, "unknown-library-refused"); } else { d.put("m.mtl", k == 2 ? "newmtl " + nm + "\n" : "newmtl a\nmap_Kd " + nm + "\n"); auto r = load(d.put("a.obj", "mtllib m.mtl\n")); vp_assert(r.ok && r.ms.size() == 1, "material"); if (n == 255 && r.ms.size() == 1) vp_assert((k == 2 ? r.ms[0].name : r.ms[0].mapKd) == nm, "whole-name"); } }
VP_ENTRY(long_lines) { // a line of any length is either read or makes the file fail, never silently ends it
    Dir d; int k = vp_choice("length", 3), n = k == 0 ? 4000 : k == 1 ? 4095 : 4096; std::string s = std::string(F1) + "#" + std::string(n, ' ') + "\nf 1 2 3\n"; if (vp_choice("mtl", 2)) { d.put("m.mtl", "#" + std::string(n, ' ') + "\nnewmtl a\n"); auto r = load(d.put("a.obj", std::string(F1) + "mtllib m.mtl\n")); vp_assert(!r.ok || (r.ms.size() == 1 && r.ms[0].name == "a"), "rest-is-not-dropped"); } else { auto r = load(d.put("a.obj", s)); vp_assert(!r.ok || r.fs.size() == 1, "rest-is-not-dropped"); } }
// ------------------------------------------------------------------ meshes
struct W { Root root; Component::Ptr<AssetGroup> top; W() { objloader::init(); top = comp::create<AssetGroup>("asset_group::default", "$.assets"); vp_assert((bool)top, "created"); root.add("assets", top.get()); }
    template <class T> T* add(const std::string& n, const std::string& k, Json j) { auto* p = dynamic_cast<T*>(top->load_asset(n, k, j)); vp_assert(p, "loaded"); if (!p) vp_end(); return p; } };
struct Geo { Vec3 p[4], n[3]; Vec3 t[3]; int np = 4; bool hn, ht; int P[6] = {1, 2, 3, 3, 2, 4}, N[6] = {1, 2, 3, 3, 2, 1}, T[6] = {3, 1, 2, 2, 1, 3};
    Geo(bool hn, bool ht) : hn(hn), ht(ht) { p[0] = vec("p"); p[1] = p[0] + Vec3(vp_real_in("e", 0.1, 10), 0, 0); p[2] = p[0] + Vec3(0, vp_real_in("e", -10, 10), vp_real_in("e", 0.1, 10)); p[3] = Vec3(0.3, -0.7, 2); for (int i = 0; i < 3; i++) { n[i] = Vec3(vp_real_in("n", -1, 1), vp_real_in("n", -1, 1), vp_real_in("n", 0.5, 1)); t[i] = vec("t"); } }
    std::string text() { std::string s = geo_text(p, 4, n, hn ? 3 : 0, t, ht ? 3 : 0); for (int f = 0; f < 2; f++) { s += "f"; for (int k = 3 * f; k < 3 * f + 3; k++) { s += " " + std::to_string(P[k]); if (ht) s += "/" + std::to_string(T[k]); if (hn) s += (ht ? "/" : "//") + std::to_string(N[k]); } s += "\n"; } return s; }
    Json json() { Json ps = Json::array(), ns = Json::array(), ts = Json::array(), fp = Json::array(), fn = Json::array(), ft = Json::array(); for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) ps.push_back(p[i][k]); for (int i = 0; i < 3; i++) { for (int k = 0; k < 3; k++) ns.push_back(n[i][k]); for (int k = 0; k < 2; k++) ts.push_back(t[i][k]); } for (int k = 0; k < 6; k++) { fp.push_back(P[k] - 1); fn.push_back(N[k] - 1); ft.push_back(T[k] - 1); } return Json{{"ps", ps}, {"ns", ns}, {"ts", ts}, {"fs", Json{{"p", fp}, {"n", fn}, {"t", ft}}}}; }
    void check(const Mesh* m, bool points) { vp_assert(m->num_triangles() == 2, "number-of-triangles"); int c = 0; m->foreach_triangle([&](int f, const Mesh::Tri& t) { vp_assert(f == c, "visited-in-order"); tri(t, f); ++c; }); vp_assert(c == 2, "every-triangle-visited"); for (int f = 0; f < 2; f++) tri(m->triangle_at(f), f); if (points) point(m); }
    void tri(const Mesh::Tri& q, int f) { const Mesh::Point* v[3] = {&q.p1, &q.p2, &q.p3}; for (int k = 0; k < 3; k++) { int i = 3 * f + k; eq3(v[k]->p, p[P[i] - 1], "vertex"); eq3(v[k]->n, hn ? n[N[i] - 1] : Vec3(0), "vertex-normal"); eq2(v[k]->t, ht ? Vec2(t[T[i] - 1]) : Vec2(0), "vertex-texture-coordinates"); } }
    void point(const Mesh* m) { double a = vp_real_in("a", 0, 1), b = vp_real_in("b", 0, 1); vp_assume(a + b <= 1); int f = 0; auto mix = [&](Vec3 x, Vec3 y, Vec3 z) { return x * (1 - a - b) + y * a + z * b; }; auto s = m->surface_point(f, Vec2(a, b)); eq3(s.p, mix(p[P[0] - 1], p[P[1] - 1], p[P[2] - 1]), "point"); Vec3 g = glm::cross(p[P[1] - 1] - p[P[0] - 1], p[P[2] - 1] - p[P[0] - 1]); near(s.gn, g, "geometry-normal"); if (hn) near(s.n, mix(n[N[0] - 1], n[N[1] - 1], n[N[2] - 1]), "shading-normal"); else eq3(s.n, s.gn, "shading-normal-is-geometry-normal"); eq2(s.t, ht ? Vec2(mix(t[T[0] - 1], t[T[1] - 1], t[T[2] - 1])) : Vec2(0), "texture-coordinates"); }
    static void near(Vec3 u, Vec3 d, const char* l) { Vec3 c = glm::cross(u, d); eq3(c, Vec3(0), l); eq(glm::dot(u, u), 1, l); vp_assert_le(0, glm::dot(u, d), l); } };
VP_ENTRY(mesh_raw) { W w; Geo g(true, true); g.check(w.add<Mesh>("m", "mesh::raw", g.json()), true); }
VP_ENTRY(mesh_obj) { Dir d; W w; int k = vp_choice("attributes", 4); Geo g(k & 1, k & 2); g.check(w.add<Mesh>("m", "mesh::wavefrontobj", Json{{"path", d.put("a.obj", g.text())}}), true); }
VP_ENTRY(mesh_obj_partial) { // some corners of a triangle without normal or texture coordinates
    Dir d; W w; int k = vp_choice("bare", 7) + 1; bool tex = vp_choice("texture", 2), model = vp_choice("model", 2); std::string s = std::string(F1) + "vn 0 0 1\nvt 0.5 0.5\nf"; for (int i = 0; i < 3; i++) s += " " + std::to_string(i + 1) + ((k >> i & 1) ? "" : tex ? "/1" : "//1"); s += "\n"; std::string p = d.put("a.obj", s); const Mesh* m = nullptr; if (model) { auto* q = w.add<Model>("m", "model::wavefrontobj", Json{{"path", p}}); q->create_primitives([&](Component* c, Component*, Component*) { m = dynamic_cast<Mesh*>(c); }); } else m = w.add<Mesh>("m", "mesh::wavefrontobj", Json{{"path", p}}); vp_assert(m, "mesh"); if (!m) return; double a = vp_real_in("a", 0, 1), b = vp_real_in("b", 0, 1); vp_assume(a + b <= 1); auto x = m->surface_point(0, Vec2(a, b)); eq3(x.p, Vec3(a, b, 0), "point"); eq3(x.gn, Vec3(0, 0, 1), "geometry-normal"); eq3(x.n, Vec3(0, 0, 1), "shading-normal"); auto t = m->triangle_at(0); eq3(t.p3.p, Vec3(0, 1, 0), "vertex"); }
// ------------------------------------------------------------------ models
struct TexT final : public Texture { std::string path; bool al = false; LM_SERIALIZE_IMPL(ar) { ar(path, al); } void construct(const Json& j) override { path = json::value<std::string>(j, "path"); al = path.find("alpha") != std::string::npos; } TextureSize size() const override { return {1, 1}; } Vec3 eval_by_pixel_coords(int, int) const override { return eval(Vec2(0)); } Vec3 eval(Vec2) const override { return path.find("one/") != std::string::npos ? Vec3(0.25, 0.5, 0.75) : Vec3(0.5, 0.5, 0.125); } bool has_alpha() const override { return al; } Float eval_alpha(Vec2) const override { return 0.5; } };
LM_COMP_REG_IMPL(TexT, "texture::vp");
struct Prim { Mesh* mesh; Material* mat; Light* light; };
static std::vector<Prim> prims(const Model* m) { std::vector<Prim> r; m->create_primitives([&](Component* a, Component* b, Component* c) { r.push_back({dynamic_cast<Mesh*>(a), dynamic_cast<Material*>(b), dynamic_cast<Light*>(c)}); vp_assert(r.back().mesh && r.back().mat && (!c || r.back().light), "primitive-parts-have-their-kind"); }); return r; }
VP_ENTRY(model_primitives) { // one primitive per run of faces: its geometry, its material, and a light exactly if the material emits
    Dir d; W w; Geo g(true, true); Vec3 Ke(0); int c = vp_choice("channel", 4); if (c) { Ke[c - 1] = vp_real_in("Ke", 0.01, 100); } d.put("m.mtl", "newmtl a\nillum 5\nnewmtl b\nillum 7\nNi 1.5\nKe " + n3(Ke) + "\n"); int first = vp_choice("first", 2); std::string s = g.text(); size_t at = s.find("f "), at2 = s.find("f ", at + 2); s = "mtllib m.mtl\n" + s.substr(0, at) + (first ? "usemtl b\n" : "usemtl a\n") + s.substr(at, at2 - at) + (first ? "usemtl a\n" : "usemtl b\n") + s.substr(at2); auto* m = w.add<Model>("m", "model::wavefrontobj", Json{{"path", d.put("a.obj", s)}}); auto r = prims(m); vp_assert(r.size() == 2, "one-primitive-per-part"); if (r.size() != 2) return;
    for (int i = 0; i < 2; i++) { bool b = i == first ? false : true; if (first) b = i == 0; vp_assert(r[i].mesh->num_triangles() == 1, "its-triangles"); g.tri(r[i].mesh->triangle_at(0), i); vp_assert(r[i].mat->key() == (b ? "material::glass" : "material::mirror"), "its-material"); vp_assert((r[i].light != nullptr) == (b && c != 0), "light-exactly-if-emissive"); vp_assert(comp::get<Component>(r[i].mesh->loc()) == r[i].mesh && comp::get<Component>(r[i].mat->loc()) == r[i].mat, "parts-have-locators"); if (r[i].light) { auto gm = surf(Vec3(0), Vec3(0, 0, 1)); eq3(r[i].light->eval(gm, Vec3(0, 0, 1), false), Ke, "emission"); } } g.point(r[0].mesh); }
VP_ENTRY(model_materials) { Dir d; W w; int il = vp_int("illum", 0, 10); bool skip = vp_choice("skip", 2), base = vp_choice("base", 2); double Ni = vp_real_in("Ni", 1.1, 2), Ns = vp_real_in("Ns", 1, 100); Vec3 Kd = color("Kd"), Ks = color("Ks"); d.put("m.mtl", "newmtl a\nillum " + num(il) + "\nNi " + num(Ni) + "\nKd " + n3(Kd) + "\nKs " + n3(Ks) + "\nNs " + num(Ns) + "\n"); std::string p = d.put("a.obj", std::string("mtllib m.mtl\n") + F1 + "usemtl a\nf 1 2 3\n"); if (base) w.add<Material>("base", "material::mask", Json::object()); Json j{{"path", p}, {"skip_specular_mat", skip}}; if (base) j["base_material"] = "$.assets.base"; auto r = prims(w.add<Model>("m", "model::wavefrontobj", j)); vp_assert(r.size() == 1, "primitive"); if (r.size() != 1) return; auto* m = r[0].mat; std::string k = m->key(); auto g = surf(Vec3(0), Vec3(0, 0, 1)); if (base) { vp_assert(m->is_specular_component(0), "uses-the-given-material"); eq3(m->reflectance(g), Vec3(0), "uses-the-given-material"); return; }
    if (il == 5 || il == 7) { if (skip) { vp_assert(k == "material::diffuse", "specular-replaced"); eq3(m->reflectance(g), Vec3(0), "specular-replaced-by-black"); } else { vp_assert(k == (il == 5 ? "material::mirror" : "material::glass"), "specular-kind"); if (il == 7) { Vec3 wi(0, 0.6, 0.8); auto s = m->sample_direction({{}, Vec2(0.5, 0.5)}, g, wi, 1, TD::EL); (void)s; } } } else { vp_assert(!m->is_specular_component(0), "scattering"); eq3(m->reflectance(g), Kd, "diffuse-reflectance"); } }
VP_ENTRY(model_textures) { Dir d; W w; bool same = vp_choice("same", 2), alpha = vp_choice("alpha", 2), skip = vp_choice("skip", 2); std::string t1 = alpha ? "one/alpha.png" : "one/t.png", t2 = same ? t1 : alpha ? "two/alpha.png" : "two/t.png"; d.put("m.mtl", "newmtl a\nmap_Kd " + t1 + "\nnewmtl b\nmap_Kd " + t2 + "\n"); auto r = prims(w.add<Model>("m", "model::wavefrontobj", Json{{"path", d.put("a.obj", std::string("mtllib m.mtl\n") + F1 + "usemtl a\nf 1 2 3\nusemtl b\nf 1 2 3\n")}, {"texture", "texture::vp"}, {"skip_specular_mat", skip}})); vp_assert(r.size() == 2, "primitives"); if (r.size() != 2) return; auto g = surf(Vec3(0), Vec3(0, 0, 1)); for (int i = 0; i < 2; i++) { eq3(r[i].mat->reflectance(g), i == 0 || same ? Vec3(0.25, 0.5, 0.75) : Vec3(0.5, 0.5, 0.125), "its-own-texture"); eq(r[i].mat->pdf_component(1, g, Vec3(0, 0, 1)), alpha && !skip ? 0.5 : 0, "alpha-mask"); } }
VP_ENTRY(model_bad) { Dir d; W w; bool th = false; try { w.top->load_asset("m", vp_choice("model", 2) ? "model::wavefrontobj" : "mesh::wavefrontobj", Json{{"path", vp_choice("missing", 2) ? d.d + "nope.obj" : d.put("a.obj", std::string(F1) + "f 1 2 9\n")}}); } catch (const Exception&) { th = true; } vp_assert(th, "bad-file-refused"); vp_assert(!comp::get<Component>("$.assets.m"), "nothing-registered"); }
// ------------------------------------------------------------------ saving and loading, replacing
static void trip(W& w, Dir& d, Component* c, const char* n) { std::string f = d.put("saved", ""); { std::ofstream os(f, std::ios::out | std::ios::binary); serial::save_comp_owned<Component>(os, c, c->loc()); } vp_assert(w.top->load_serialized(n, f), "loaded"); }
static Vec3 at(const Vec3* p, double a, double b) { return p[0] * (1 - a - b) + p[1] * a + p[2] * b; }
VP_ENTRY(saved_mesh) { Dir d; W w; int k = vp_choice("attributes", 4); Geo g(k & 1, k & 2); auto* m = w.add<Mesh>("m", "mesh::wavefrontobj", Json{{"path", d.put("a.obj", g.text())}}); trip(w, d, m, "n"); auto* n = comp::get<Mesh>("$.assets.n"); vp_assert(n && n != m, "copy"); if (n) g.check(n, false); }
static void same_material(const Material* x, const Material* y, int comps) { auto g = surf(Vec3(0), Vec3(0, 0, 1), Vec2(0.3, 0.4)); Vec3 wi(0.48, 0.64, 0.6), wo(0, 0.6, 0.8); double u = u01("uc"); auto p = x->sample_component({Vec2(u, 0.5)}, g, wi), q = y->sample_component({Vec2(u, 0.5)}, g, wi); vp_assert(p.comp == q.comp, "component"); eq(q.weight, p.weight, "component-weight"); for (int k = 0; k < comps; k++) { eq(y->pdf_component(k, g, wi), x->pdf_component(k, g, wi), "component-pdf"); vp_assert(x->is_specular_component(k) == y->is_specular_component(k), "specular"); eq3(y->eval(g, wi, wo, k, TD::EL, false), x->eval(g, wi, wo, k, TD::EL, false), "eval"); eq(y->pdf_direction(g, wi, wo, k, false), x->pdf_direction(g, wi, wo, k, false), "pdf"); } eq3(y->reflectance(g), x->reflectance(g), "reflectance"); }
VP_ENTRY(saved_model) { // a model read back has the same parts, usable after the original is gone
    Dir d; W w; Geo g(true, true); double Ke = vp_real_in("Ke", 0.01, 100); int kind = vp_choice("kind", 3); bool specular = vp_choice("specular", 2); d.put("m.mtl", "newmtl a\n" + std::string(specular ? "illum 7\nNi 1.5\n" : kind == 0 ? "Kd " + n3(color("Kd")) + "\nKs 0.5 0.25 0.125\nNs 8\n" : kind == 1 ? "Ks 0.5 0.25 0.125\nmap_Kd one/t.png\n" : "map_Kd one/alpha.png\n") + "newmtl b\nillum 5\nKe " + num(Ke) + " 0 0\n"); std::string s = g.text(); size_t at1 = s.find("f "), at2 = s.find("f ", at1 + 2); s = "mtllib m.mtl\n" + s.substr(0, at1) + "usemtl a\n" + s.substr(at1, at2 - at1) + "usemtl b\n" + s.substr(at2);
    auto* m = w.add<Model>("m", "model::wavefrontobj", Json{{"path", d.put("a.obj", s)}, {"texture", "texture::vp"}}); trip(w, d, m, "n"); auto* n = comp::get<Model>("$.assets.n"); vp_assert(n && n != m, "copy"); if (!n) return; auto x = prims(m), y = prims(n); vp_assert(x.size() == 2 && y.size() == 2, "primitives"); if (x.size() != 2 || y.size() != 2) return;
    for (int i = 0; i < 2; i++) { vp_assert(y[i].mesh != x[i].mesh && y[i].mat != x[i].mat, "new-parts"); vp_assert(y[i].mesh->num_triangles() == 1 && y[i].mat->key() == x[i].mat->key(), "same-parts"); g.tri(y[i].mesh->triangle_at(0), i); vp_assert(comp::get<Component>(y[i].mesh->loc()) == y[i].mesh && comp::get<Component>(y[i].mat->loc()) == y[i].mat, "parts-have-locators"); vp_assert((y[i].light != nullptr) == (i == 1), "light"); }
    same_material(x[0].mat, y[0].mat, specular ? 2 : 3); if (y[1].light) { auto gm = surf(Vec3(0), Vec3(0, 0, 1)); eq3(y[1].light->eval(gm, Vec3(0, 0, 1), false), Vec3(Ke, 0, 0), "emission"); auto far = surf(Vec3(1, -2, 30), Vec3(0, 0, -1)); Light::RaySampleU u{Vec2(0.3, 0.4), 0.2, Vec2(0.5, 0.5)}; Transform T(Mat4(1)); auto a = x[1].light->sample_direct(u, far, T), b = y[1].light->sample_direct(u, far, T); vp_assert((bool)a == (bool)b, "light-sample"); if (a && b) { eq3(b->geom.p, a->geom.p, "light-sample"); eq3(b->weight, a->weight, "light-sample"); } }
    w.top->load_asset("m", "mesh::raw", g.json()); for (int i = 0; i < 2; i++) g.tri(y[i].mesh->triangle_at(0), i); }
VP_ENTRY(replace_base_material) { // a model made of one given material follows that material when it is replaced
    Dir d; W w; Vec3 c = color("c"), e = color("e"); w.add<Material>("base", "material::diffuse", Json{{"Kd", j3(c)}}); d.put("m.mtl", "newmtl a\nnewmtl b\nillum 5\n"); auto* m = w.add<Model>("m", "model::wavefrontobj", Json{{"path", d.put("a.obj", std::string("mtllib m.mtl\n") + F1 + "usemtl a\nf 1 2 3\nusemtl b\nf 1 2 3\n")}, {"base_material", "$.assets.base"}}); auto r = prims(m); vp_assert(r.size() == 2, "primitives"); auto g = surf(Vec3(0), Vec3(0, 0, 1)); for (auto& p : r) eq3(p.mat->reflectance(g), c, "given-material"); w.add<Material>("base", "material::diffuse", Json{{"Kd", j3(e)}}); r = prims(m); for (auto& p : r) eq3(p.mat->reflectance(g), e, "replacement-is-used"); }
