#include "common.hpp"
#include "BoundingBox.hpp"
using namespace utymap;
using namespace vf;
static double pick() {
  static const double v[] = {0, -0.0, 1, -1, 90, -90, 180, -180, 45.5, -45.5, 1e-300, 12.25, 300, -300};
  return coin(3) ? real(-200, 200) : coin() ? (double) (int) rnd(7) - 3 : v[rnd(14)];
}
static GeoCoordinate pt() { double a = pick(), b = pick(); return GeoCoordinate(a, b); }
static std::string s(const GeoCoordinate &c) { return fmt("(%.17g, %.17g)", c.latitude, c.longitude); }
static std::string s(const BoundingBox &b) { return "[" + s(b.minPoint) + " " + s(b.maxPoint) + "]"; }
static BoundingBox box() {
  if (coin(10)) return BoundingBox();
  GeoCoordinate a = pt(), b = pt();
  if (coin(6)) return BoundingBox(a, b);
  return BoundingBox(GeoCoordinate(std::min(a.latitude, b.latitude), std::min(a.longitude, b.longitude)),
                     GeoCoordinate(std::max(a.latitude, b.latitude), std::max(a.longitude, b.longitude)));
}
static bool eq(const BoundingBox &b, double a, double c, double d, double e) {
  return b.minPoint.latitude == a && b.minPoint.longitude == c && b.maxPoint.latitude == d && b.maxPoint.longitude == e;
}
#define MINP(a, b) ((b) < (a) ? (b) : (a))
#define MAXP(a, b) ((a) < (b) ? (b) : (a))
static void join(const BoundingBox &got, const BoundingBox &a, const BoundingBox &b, const char *w) {
  REQUIRE(eq(got, MINP(a.minPoint.latitude, b.minPoint.latitude), MINP(a.minPoint.longitude, b.minPoint.longitude),
             MAXP(a.maxPoint.latitude, b.maxPoint.latitude), MAXP(a.maxPoint.longitude, b.maxPoint.longitude)), std::string(w) + " gives " + s(got));
}
int main(int argc, char **argv) {
  init(argc, argv);
  note("default box");
  BoundingBox d;
  REQUIRE(eq(d, 90, 180, -90, -180), "default box is not the empty box of the world");
  while (more() && elapsed() < 20)
    for (int k = 0; k < 1000; k++) {
      BoundingBox a = box(), b = box();
      GeoCoordinate c = pt();
      if (coin(4)) { c = coin() ? a.minPoint : a.maxPoint; }
      if (coin(6)) { b.minPoint = a.maxPoint; }
      note("boxes " + s(a) + " " + s(b) + " point " + s(c));
      BoundingBox x = a; x.expand(b); join(x, a, b, "expand(box)");
      BoundingBox y = a; y += b; join(y, a, b, "+=");
      BoundingBox z = a; z.expand(c); join(z, a, BoundingBox(c, c), "expand(point)");
      std::vector<GeoCoordinate> v;
      BoundingBox e = a;
      for (int i = rnd(6); i > 0; i--) v.push_back(pt());
      for (auto &p : v) e = BoundingBox(GeoCoordinate(MINP(e.minPoint.latitude, p.latitude), MINP(e.minPoint.longitude, p.longitude)),
                                        GeoCoordinate(MAXP(e.maxPoint.latitude, p.latitude), MAXP(e.maxPoint.longitude, p.longitude)));
      BoundingBox w = a; w.expand(v.begin(), v.end());
      REQUIRE(eq(w, e.minPoint.latitude, e.minPoint.longitude, e.maxPoint.latitude, e.maxPoint.longitude), fmt("expand over %d points gives ", (int) v.size()) + s(w));
      REQUIRE(a.contains(c) == (a.minPoint.latitude < c.latitude && c.latitude < a.maxPoint.latitude && a.minPoint.longitude < c.longitude && c.longitude < a.maxPoint.longitude), "contains(point)");
      REQUIRE(a.contains(b) == (a.contains(b.minPoint) && a.contains(b.maxPoint)), "contains(box)");
      if (a.isValid() && b.isValid()) {
        bool i = a.minPoint.latitude <= b.maxPoint.latitude && b.minPoint.latitude <= a.maxPoint.latitude && a.minPoint.longitude <= b.maxPoint.longitude && b.minPoint.longitude <= a.maxPoint.longitude;
        REQUIRE(a.intersects(b) == i && b.intersects(a) == i, "intersects");
        GeoCoordinate m = a.center();
        REQUIRE(fabs(m.latitude - (a.minPoint.latitude + a.maxPoint.latitude) / 2) < 1e-9 && fabs(m.longitude - (a.minPoint.longitude + a.maxPoint.longitude) / 2) < 1e-9, "center " + s(m));
        nontrivial++;
      }
      REQUIRE(a.isValid() == (a.minPoint.latitude <= a.maxPoint.latitude && a.minPoint.longitude <= a.maxPoint.longitude), "isValid");
      REQUIRE(a.width() == a.maxPoint.longitude - a.minPoint.longitude && a.height() == a.maxPoint.latitude - a.minPoint.latitude, "width/height");
    }
  return done();
}
