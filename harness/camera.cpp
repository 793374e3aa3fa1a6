// Pinhole camera: raster <-> direction mapping, sampling density and importance.
#include "common.h"
using namespace lm; using namespace hx;
struct Cam { Component::Ptr<Camera> c; Vec3 p, fwd, up, right; double aspect, vfov, t; };
// look-at construction: the viewing frame is derived from an arbitrary distance along rational axes; or a camera-to-world matrix
static Cam cam(int how) {
    Cam k; k.p = vec("eye"); k.aspect = pos("aspect"); k.t = pos("halftan"); k.vfov = std::atan(k.t) * 360 / Pi; // every angle in (0,180)
   
    Vec3 f[2] = {Vec3(0, 0, -1), Vec3(0.6, 0, 0.8)}, u[2] = {Vec3(0, 1, 0), Vec3(0, 1, 0)}; int o = vp_choice("orient", 2); k.fwd = f[o]; k.up = u[o]; k.right = glm::cross(k.fwd, k.up);
    if (how == 0) { double d = pos("dist"), s = vp_real("tilt"), l = pos("uplen"); Vec3 ct = k.p + d * k.fwd, up = l * k.up + s * k.fwd; // any up vector in the vertical plane
        k.c = comp::create<Camera>("camera::pinhole", "", Json{{"position", j3(k.p)}, {"center", j3(ct)}, {"up", j3(up)}, {"vfov", k.vfov}, {"aspect", k.aspect}}); }
    else { Json m = Json::array(); Vec3 col[4] = {-k.right, k.up, k.fwd, k.p}; for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) m.push_back(i < 3 ? col[j][i] : (j == 3 ? 1. : 0.));
        k.c = comp::create<Camera>("camera::pinhole", "", Json{{"matrix", m}, {"vfov", k.vfov}, {"aspect", k.aspect}}); }
    vp_assert((bool)k.c, "created"); return k;
}
// the direction through raster position (x,y) of an upright image with the given field of view
static void is_dir(const Cam& k, Vec3 d, Vec2 rp) {
    double f = glm::dot(d, k.fwd), r = glm::dot(d, k.right), u = glm::dot(d, k.up); eq(glm::dot(d, d), 1, "unit-direction"); vp_assert(f > 0, "in-front");
    eq(u, f * k.t * (2 * rp.y - 1), "vertical-field-of-view"); eq(r, f * k.t * k.aspect * (2 * rp.x - 1), "horizontal-field-of-view"); }
VP_ENTRY(primary_ray) { Cam k = cam(vp_choice("how", 2)); Vec2 rp(vp_real("x"), vp_real("y")); auto r = k.c->primary_ray(rp); eq3(r.o, k.p, "starts-at-eye"); is_dir(k, r.d, rp); }
VP_ENTRY(raster_round_trip) { Cam k = cam(1); Vec2 rp(vp_real_in("x", 0, 1), vp_real_in("y", 0, 1)); vp_assume(rp.x > 0 && rp.x < 1 && rp.y > 0 && rp.y < 1); auto r = k.c->primary_ray(rp); auto q = k.c->raster_position(r.d); vp_assert((bool)q, "inside-frustum"); if (q) { eq(q->x, rp.x, "round-trip"); eq(q->y, rp.y, "round-trip"); }
    q = k.c->raster_position(-r.d); vp_assert(!q, "nothing-behind"); eq3(k.c->eval(-r.d), Vec3(0), "no-importance-behind"); eq(k.c->pdf_direction(PointGeometry::make_degenerated(k.p), -r.d), 0, "no-density-behind"); }
VP_ENTRY(outside_frustum) { Cam k = cam(1); Vec2 rp(vp_real("x"), vp_real("y")); vp_assume(rp.x < 0 || rp.x > 1 || rp.y < 0 || rp.y > 1); auto r = k.c->primary_ray(rp); auto q = k.c->raster_position(r.d); vp_assert(!q, "outside-frustum"); eq3(k.c->eval(r.d), Vec3(0), "no-importance-outside"); auto g = PointGeometry::make_degenerated(k.p); eq(k.c->pdf_direction(g, r.d), 0, "no-density-outside"); eq(k.c->pdf_ray(g, r.d), 0, "no-density-outside"); }
VP_ENTRY(camera_sampling) {
    Cam k = cam(1); double u0 = u01o("u0"), u1 = u01o("u1"); auto s = k.c->sample_ray({Vec2(u0, u1)}); vp_assert((bool)s, "always-samples"); if (!s) return; eq3(s->geom.p, k.p, "starts-at-eye"); vp_assert(s->geom.degenerated && !s->geom.infinite, "point-in-space"); is_dir(k, s->wo, Vec2(u0, u1));
    double p = k.c->pdf_ray(s->geom, s->wo); Vec3 We = k.c->eval(s->wo); eq3(s->weight * p, We, "ray-weight"); eq(p, k.c->pdf_direction(s->geom, s->wo) * k.c->pdf_position(s->geom), "ray-density-factors");
    auto d = k.c->sample_direction({Vec2(u0, u1)}, s->geom); vp_assert((bool)d, "always-samples"); if (!d) return; eq3(d->wo, s->wo, "same-direction"); eq3(d->weight * k.c->pdf_direction(s->geom, d->wo), We, "direction-weight");
    auto q = k.c->sample_position({Vec2(u0, u1)}); vp_assert((bool)q, "always-samples"); if (!q) return; eq3(q->geom.p, k.p, "starts-at-eye"); eq3(q->weight * k.c->pdf_position(q->geom), Vec3(1), "position-weight");
    auto f = [&](double a, double b) { auto r = k.c->sample_ray({Vec2(a, b)}); vp_assume((bool)r); return Vec3(glm::dot(r->wo, k.right), glm::dot(r->wo, k.up), glm::dot(r->wo, k.fwd)); }; density(f, u0, u1, p, "direction-density"); vp_assert(k.c->is_connectable(s->geom), "connectable");
}
VP_ENTRY(set_aspect) { Cam k = cam(1); k.aspect = pos("aspect2"); k.c->set_aspect_ratio(k.aspect); Vec2 rp(vp_real_in("x", 0, 1), vp_real_in("y", 0, 1)); vp_assume(rp.x > 0 && rp.x < 1 && rp.y > 0 && rp.y < 1); auto r = k.c->primary_ray(rp); is_dir(k, r.d, rp); auto q = k.c->raster_position(r.d); vp_assert((bool)q, "inside-frustum"); }
VP_ENTRY(camera_direct) {
    Cam k = cam(1); Vec2 rp(vp_real_in("x", 0, 1), vp_real_in("y", 0, 1)); vp_assume(rp.x > 0 && rp.x < 1 && rp.y > 0 && rp.y < 1); double r = pos("r"); Vec3 w = k.c->primary_ray(rp).d, n = unit("n"), p = k.p + r * w; bool dg = vp_choice("degenerate", 2); auto g = dg ? PointGeometry::make_degenerated(p) : surf(p, n);
    auto s = k.c->sample_direct({Vec2(0)}, g); double c = dg ? 1 : glm::dot(n, w); if (c == 0) { vp_assert(!s, "no-grazing-sample"); return; } vp_assert((bool)s, "samples"); if (!s) return; eq3(s->wo, w, "direction-to-point"); eq3(s->geom.p, k.p, "starts-at-eye");
    double pd = k.c->pdf_direct(g, s->geom, s->wo); eq3(s->weight * pd, k.c->eval(s->wo), "direct-weight"); eq(pd * pd * c * c, r * r * r * r, "direct-density");
    auto gi = PointGeometry::make_infinite(w); vp_assert(!k.c->sample_direct({Vec2(0)}, gi), "no-connection-to-infinity"); eq(k.c->pdf_direct(gi, s->geom, w), 0, "no-connection-to-infinity");
}
// the exported view/projection matrices describe the same mapping from the world to the image as the rays do
VP_ENTRY(view_projection) { Cam k = cam(vp_choice("how", 2)); Vec2 rp(vp_real_in("x", 0, 1), vp_real_in("y", 0, 1)); double r = pos("r"); Vec3 p = k.p + r * k.c->primary_ray(rp).d; Vec4 q = k.c->projection_matrix() * (k.c->view_matrix() * Vec4(p, 1)); vp_assert(q.w > 0, "in-front-of-view"); eq(q.x, q.w * (2 * rp.x - 1), "view-projection"); eq(q.y, q.w * (2 * rp.y - 1), "view-projection"); }
