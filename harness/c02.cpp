#include "common.hpp"
#include "utils/GeoUtils.hpp"
#include <map>
#include <set>
using namespace utymap;
using namespace utymap::utils;
using namespace vf;
typedef long double L;
static const L PIL = 3.141592653589793238462643383279502884L;
static L tlon(int x, int l) { return (L) x / (1 << l) * 360 - 180; }
static L tlat(int y, int l) { L n = PIL - 2 * PIL * y / (1 << l); return 180 / PIL * atanl(sinhl(n)); }
static L cl(L v, L a, L b) { return v < a ? a : v > b ? b : v; }
static L fx(L lon, int l) { return (cl(lon, -179.9999999L, 179.9999999L) + 180) / 360 * (1 << l); }
static L fy(L lat, int l) { lat = cl(lat, -85.05112877L, 85.05112877L) * PIL / 180; return (1 - logl(tanl(lat) + 1 / cosl(lat)) / PIL) / 2 * (1 << l); }
static std::string str(const QuadKey &q) { return fmt("(lod %d, x %d, y %d)", q.levelOfDetail, q.tileX, q.tileY); }
static const L EPS = 1e-6L;
static void coord(double lat, double lon, int l) {
  note(fmt("coordinate (lat %.17g, lon %.17g) level %d", lat, lon, l));
  QuadKey q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), l);
  int n = 1 << l;
  REQUIRE(q.levelOfDetail == l, "level changed");
  REQUIRE(q.tileX >= 0 && q.tileX < n && q.tileY >= 0 && q.tileY < n, "tile outside the grid: " + str(q));
  L x = fx(lon, l), y = fy(lat, l);
  REQUIRE(x > q.tileX - EPS && x < q.tileX + 1 + EPS, "wrong column: " + str(q));
  REQUIRE(y > q.tileY - EPS && y < q.tileY + 1 + EPS, "wrong row: " + str(q));
  BoundingBox b = GeoUtils::quadKeyToBoundingBox(q);
  double la = cl(lat, -85.05112877L, 85.05112877L), lo = cl(lon, -179.9999999L, 179.9999999L);
  REQUIRE(b.minPoint.latitude <= la + 1e-7 && la <= b.maxPoint.latitude + 1e-7 && b.minPoint.longitude <= lo + 1e-7 && lo <= b.maxPoint.longitude + 1e-7,
          "tile box does not contain the coordinate");
  nontrivial++;
}
static void tile(int l, int x, int y) {
  note("tile " + str(QuadKey(l, x, y)));
  BoundingBox b = GeoUtils::quadKeyToBoundingBox(QuadKey(l, x, y));
  REQUIRE(fabsl(b.minPoint.longitude - tlon(x, l)) < 1e-9 && fabsl(b.maxPoint.longitude - tlon(x + 1, l)) < 1e-9, "longitude edges");
  REQUIRE(fabsl(b.maxPoint.latitude - tlat(y, l)) < 1e-9 && fabsl(b.minPoint.latitude - tlat(y + 1, l)) < 1e-9, "latitude edges");
  double w = (b.maxPoint.longitude - b.minPoint.longitude), h = (b.maxPoint.latitude - b.minPoint.latitude);
  QuadKey q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(b.minPoint.latitude + h / 2, b.minPoint.longitude + w / 2), l);
  REQUIRE(q == QuadKey(l, x, y), "centre of the tile maps to " + str(q));
  if (x + 1 < 1 << l) REQUIRE(GeoUtils::quadKeyToBoundingBox(QuadKey(l, x + 1, y)).minPoint.longitude == b.maxPoint.longitude, "neighbour does not share the edge");
  if (y + 1 < 1 << l) REQUIRE(GeoUtils::quadKeyToBoundingBox(QuadKey(l, x, y + 1)).maxPoint.latitude == b.minPoint.latitude, "neighbour does not share the edge");
}
static void range(double la1, double lo1, double la2, double lo2, int l) {
  note(fmt("visit tiles of box (%.17g, %.17g)-(%.17g, %.17g) level %d", la1, lo1, la2, lo2, l));
  BoundingBox b(GeoCoordinate(la1, lo1), GeoCoordinate(la2, lo2));
  std::map<std::pair<int, int>, int> seen;
  GeoUtils::visitTileRange(b, l, [&](const QuadKey &q, const BoundingBox &bb) {
    REQUIRE(q.levelOfDetail == l, "level of a visited tile");
    seen[std::make_pair(q.tileX, q.tileY)]++;
    BoundingBox e = GeoUtils::quadKeyToBoundingBox(q);
    REQUIRE(e.minPoint == bb.minPoint && e.maxPoint == bb.maxPoint, "visited with a wrong box");
    REQUIRE(bb.minPoint.latitude <= la2 && la1 <= bb.maxPoint.latitude && bb.minPoint.longitude <= lo2 && lo1 <= bb.maxPoint.longitude,
            "visited tile does not intersect the box: " + str(q));
  });
  for (auto &p : seen) REQUIRE(p.second == 1, "tile visited more than once");
  if (!(la1 <= la2 && lo1 <= lo2)) { REQUIRE(seen.empty(), "invalid box visits tiles"); return; }
  // tiles whose interior meets the box
  L x0 = fx(lo1, l), x1 = fx(lo2, l), y0 = fy(la2, l), y1 = fy(la1, l);
  if (la1 > 85 || la2 < -85 || lo1 > 179.9 || lo2 < -179.9) return;
  for (long x = (long) floorl(x0 + EPS); x <= (long) floorl(x1 - EPS); x++)
    for (long y = (long) floorl(y0 + EPS); y <= (long) floorl(y1 - EPS); y++)
      REQUIRE(seen.count(std::make_pair((int) x, (int) y)), fmt("tile (%ld, %ld) meets the box and is not visited", x, y));
  nontrivial++;
}
int main(int argc, char **argv) {
  init(argc, argv);
  double lats[] = {0, 1e-9, -1e-9, 45, -45, 52.5, 85.05112877, -85.05112877, 85.1, -89.9, 90, -90, 66.51326044311186, 84.9},
         lons[] = {0, 1e-9, -1e-9, 13.4, -13.4, 179.9999999, -179.9999999, 180, -180, 181, 200, -200, 90, -90, 179.5};
  for (int l = 1; l <= 19; l++) for (double la : lats) for (double lo : lons) coord(la, lo, l);
  for (int l = 1; l <= 5; l++) for (int x = 0; x < 1 << l; x++) for (int y = 0; y < 1 << l; y++) tile(l, x, y);
  for (int l = 1; l <= 19; l++) { int n = (1 << l) - 1; tile(l, 0, 0); tile(l, n, n); tile(l, n, 0); tile(l, 0, n); tile(l, n / 2, n / 2 + 1); }
  for (int l = 1; l <= 5; l++) { range(-90, -180, 90, 180, l); range(-85, -179, 85, 179, l); range(-1, -1, 1, 1, l); range(1, 1, -1, -1, l); range(1, 1, 1, 1, l); range(10, 5, 5, 10, l); range(5, 10, 10, 5, l); }
  while (more() && elapsed() < 40)
    for (int k = 0; k < 200; k++) {
      int l = 1 + rnd(19);
      coord(real(-91, 91), real(-185, 185), l);
      tile(l, rnd(1 << l), rnd(1 << l));
      // a box spanning a few tiles
      double w = 360.0 / (1 << l) * real(0.01, 3.5), h = w * real(0.1, 1), la = real(-84, 84), lo = real(-179, 179);
      if (coin(4)) { L x = tlon(rnd(1 << l), l); lo = x; if (coin()) w = 360.0 / (1 << l); }
      range(la, lo, std::min(la + h, 85.0), std::min(lo + w, 179.9), l);
    }
  return done();
}
