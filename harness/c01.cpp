#include "common.hpp"
#include "QuadKey.hpp"
#include "LodRange.hpp"
#include "utils/GeoUtils.hpp"
#include <stdexcept>
#include <map>
using namespace utymap;
using namespace utymap::utils;
using namespace vf;
static std::string ref(int l, int x, int y) {
  std::string s;
  for (int k = l - 1; k >= 0; k--) s += char('0' + ((x >> k) & 1) + 2 * ((y >> k) & 1));
  return s;
}
static std::string str(const QuadKey &q) { return fmt("(lod %d, x %d, y %d)", q.levelOfDetail, q.tileX, q.tileY); }
static void one(int l, int x, int y) {
  QuadKey q(l, x, y);
  note("quadkey " + str(q));
  REQUIRE(q.levelOfDetail == l && q.tileX == x && q.tileY == y, "constructor does not keep its arguments");
  std::string s = GeoUtils::quadKeyToString(q);
  REQUIRE(s == ref(l, x, y), "string is '" + s + "', expected '" + ref(l, x, y) + "'");
  nontrivial++;
}
static void pair(const QuadKey &a, const QuadKey &b) {
  note("pair " + str(a) + " " + str(b));
  auto key = [](const QuadKey &q) { return std::make_tuple(q.levelOfDetail, q.tileX, q.tileY); };
  bool lt = QuadKey::Comparator()(a, b);
  REQUIRE(lt == (key(a) < key(b)), "ordering is not lexicographic");
  REQUIRE((a == b) == (key(a) == key(b)), "equality wrong");
}
int main(int argc, char **argv) {
  init(argc, argv);
  for (int l = 1; l <= 19; l++)
    for (int dx = 0; dx < 3; dx++)
      for (int dy = 0; dy < 3; dy++) {
        int n = 1 << l;
        int xs[3] = {0, n - 1, n / 2}, ys[3] = {0, n - 1, n / 2};
        one(l, xs[dx], ys[dy]);
      }
  for (int l = 1; l <= 6; l++) for (int x = 0; x < 1 << l; x++) for (int y = 0; y < 1 << l; y++) one(l, x, y);
  for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++)
    pair(QuadKey(1 + (a & 3), a >> 2 & 3, a >> 4), QuadKey(1 + (b & 3), b >> 2 & 3, b >> 4));
  for (int s = -3; s <= 25; s++) for (int e = -3; e <= 25; e++) {
    note(fmt("LodRange(%d, %d)", s, e));
    bool thrown = false;
    try { LodRange r(s, e); REQUIRE(r.start == s && r.end == e, "range does not keep its bounds"); }
    catch (const std::domain_error &) { thrown = true; }
    REQUIRE(thrown == !(s >= 1 && s <= 19 && e >= 1 && e <= 19), "unsupported levels are refused, supported ones accepted");
  }
  while (more() && elapsed() < 20) {
    for (int k = 0; k < 1000; k++) {
      int l = 1 + rnd(19);
      one(l, rnd(1 << l), rnd(1 << l));
      QuadKey a(1 + rnd(19), (int) rnd(1 << 19), (int) rnd(1 << 19)), b(a);
      if (coin()) b.levelOfDetail = 1 + rnd(19);
      if (coin()) b.tileX = coin() ? a.tileX ^ (1 << rnd(19)) : (int) rnd();
      if (coin()) b.tileY = coin() ? a.tileY ^ (1 << rnd(19)) : (int) rnd();
      if (coin(20)) a.tileX = -(int) rnd(1000);
      pair(a, b);
    }
  }
  return done();
}
