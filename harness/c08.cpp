#include "common.hpp"
#include "entities/Node.hpp"
#include "entities/Way.hpp"
#include "entities/Area.hpp"
#include "entities/Relation.hpp"
#include "index/ElementGeometryClipper.hpp"
#include "index/ElementGeometryVisitor.hpp"
#include "index/ElementStore.hpp"
#include "index/StringTable.hpp"
#include "mapcss/StyleProvider.hpp"
#include "utils/GeoUtils.hpp"
#include <map>
#include <set>
#include <ftw.h>
#include <sys/stat.h>
using namespace vf;
using namespace utymap;
using namespace utymap::entities;
using namespace utymap::index;
using namespace utymap::mapcss;
using utymap::utils::GeoUtils;
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
struct Less {
  bool operator()(const QuadKey &a, const QuadKey &b) const {
    return std::make_tuple(a.levelOfDetail, a.tileX, a.tileY) < std::make_tuple(b.levelOfDetail, b.tileX, b.tileY);
  }
};
typedef std::set<QuadKey, Less> Keys;
static std::string q(const QuadKey &k) { return fmt("%d:%d:%d", k.levelOfDetail, k.tileX, k.tileY); }
// Stand-ins: the style of a level is given by the test, clipping is recorded.
static StringTable *table;
static const Element *current;
static std::map<int, std::vector<std::shared_ptr<StyleDeclaration>>> styles;
static Keys saved, clipped;
namespace utymap { namespace mapcss {
std::unique_ptr<StyleEvaluator::Tree> StyleEvaluator::parse(const std::string &) { return nullptr; }
class StyleProvider::StyleProviderImpl {};
StyleProvider::StyleProvider(const StyleSheet &, StringTable &) {}
StyleProvider::~StyleProvider() {}
Style StyleProvider::forElement(const Element &e, int lod) const {
  REQUIRE(&e == current, "style of another element is asked");
  Style s(e.tags, *table);
  for (auto &d : styles[lod]) s.put(*d);
  return s;
}
} }
static bool same(const BoundingBox &a, const BoundingBox &b) {
  return a.minPoint.latitude == b.minPoint.latitude && a.minPoint.longitude == b.minPoint.longitude && a.maxPoint.latitude == b.maxPoint.latitude && a.maxPoint.longitude == b.maxPoint.longitude;
}
static Node clippedNode;
static const QuadKey *clippingKey = nullptr;
static int passedOn = 0;
namespace utymap { namespace index {
ElementGeometryClipper::ElementGeometryClipper(const QuadKey &k, const BoundingBox &b, Callback c) : callback_(c), quadKey_(k), quadKeyBbox_(b), clipper_() {}
void ElementGeometryClipper::clipAndCall(const Element &e) {
  REQUIRE(&e == current, "another element is clipped");
  REQUIRE(same(quadKeyBbox_, GeoUtils::quadKeyToBoundingBox(quadKey_)), "clipped by another box than the one of tile " + q(quadKey_));
  REQUIRE(clipped.insert(quadKey_).second, "clipped twice for tile " + q(quadKey_));
  clippingKey = &quadKey_;
  passedOn = 0;
  callback_(clippedNode, quadKey_);
  REQUIRE(passedOn == 1, "result of clipping is not saved in tile " + q(quadKey_));
  clippingKey = nullptr;
}
void ElementGeometryClipper::visitNode(const Node &) {}
void ElementGeometryClipper::visitWay(const Way &) {}
void ElementGeometryClipper::visitArea(const Area &) {}
void ElementGeometryClipper::visitRelation(const Relation &) {}
} }
struct Store : ElementStore {
  explicit Store(const StringTable &t) : ElementStore(t) {}
  void search(const std::string &, const std::string &, const std::string &, const BoundingBox &, const LodRange &, ElementVisitor &, const CancellationToken &) override {}
  void search(const QuadKey &, ElementVisitor &, const CancellationToken &) override {}
  bool hasData(const QuadKey &) const override { return true; }
  void save(const Element &e, const QuadKey &k) override {
    if (clippingKey) {
      REQUIRE(&e == &clippedNode && k == *clippingKey, "result of clipping for " + q(*clippingKey) + " is saved as something else in " + q(k));
      passedOn++;
      return;
    }
    REQUIRE(&e == current, "another element is saved");
    REQUIRE(saved.insert(k).second, "saved twice in tile " + q(k));
  }
  void erase(const QuadKey &) override { REQUIRE(false, "store erases"); }
  void erase(const BoundingBox &, const LodRange &) override { REQUIRE(false, "store erases"); }
};
static double clat, clon, size;
static int top;
static GeoCoordinate pt() {
  double a = clat + real(-size, size), o = clon + real(-size, size);
  if (coin(40)) { int l = std::max(1, top - (int) rnd(3)); auto b = GeoUtils::quadKeyToBoundingBox(GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(clat, clon), l)); return coin() ? b.minPoint : b.maxPoint; }
  return GeoCoordinate(std::max(-85., std::min(85., a)), std::max(-179.9, std::min(179.9, o)));
}
struct Hull { double s[4] = {1e9, 1e9, -1e9, -1e9}; bool any = false;
  void add(const GeoCoordinate &c) { any = true; s[0] = std::min(s[0], c.latitude); s[1] = std::min(s[1], c.longitude); s[2] = std::max(s[2], c.latitude); s[3] = std::max(s[3], c.longitude); } };
static std::shared_ptr<Element> element(Hull &h, int depth, std::string &d) {
  int k = rnd(depth > 2 ? 3 : 4);
  auto say = [&](const GeoCoordinate &c) { h.add(c); d += fmt("(%.17g,%.17g)", c.latitude, c.longitude); };
  if (k == 0) { auto n = std::make_shared<Node>(); n->coordinate = pt(); d += " node"; say(n->coordinate); return n; }
  int n = coin(8) ? 0 : 1 + rnd(5);
  if (k == 1) { auto w = std::make_shared<Way>(); d += " way"; for (int i = 0; i < n; i++) { w->coordinates.push_back(pt()); say(w->coordinates.back()); } return w; }
  if (k == 2) { auto w = std::make_shared<Area>(); d += " area"; for (int i = 0; i < n; i++) { w->coordinates.push_back(pt()); say(w->coordinates.back()); } return w; }
  auto r = std::make_shared<Relation>();
  d += " relation[";
  for (int i = 0; i < n; i++) r->elements.push_back(element(h, depth + 1, d));
  d += "]";
  return r;
}
static bool meets(const Hull &h, const BoundingBox &b) {
  return h.s[0] <= b.maxPoint.latitude && b.minPoint.latitude <= h.s[2] && h.s[1] <= b.maxPoint.longitude && b.minPoint.longitude <= h.s[3];
}
int main(int argc, char **argv) {
  init(argc, argv);
  while (more()) {
  std::string dir = scratch + "/st" + std::to_string(cases) + "_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  {
    StringTable st(dir + "/");
    table = &st;
    const char *other[] = {"color", "height", "tru", "TRUE", "false", ""};
    if (coin()) st.getId("skip");
    if (coin()) for (auto s : other) st.getId(s);
    if (coin()) st.getId("clip");
    Store store(st);
    auto clip = st.getId("clip"), skip = st.getId("skip");
    alignas(8) static char none[4096]; // never read
    StyleProvider sp(reinterpret_cast<StyleSheet &>(none), st);
    for (int runs = 0; runs < 300 && more(); runs++) {
      static const double sizes[] = {60, 20, 3, .3, .01, .0001};
      clat = coin(8) ? (coin() ? 1 : -1) * real(80, 90) : real(-80, 80);
      clon = coin(8) ? (coin() ? 1 : -1) * real(170, 180) : real(-175, 175);
      size = sizes[rnd(6)];
      top = size > 30 ? 4 : size > 10 ? 5 : size > 1 ? 8 : size > .1 ? 11 : size > .001 ? 15 : 19;
      Hull h;
      std::string d;
      auto e = element(h, 0, d);
      current = e.get();
      std::string full = d;
      auto describe = [&](const std::string &s) { note((full.size() > 2500 ? full.substr(0, 2500) + "..." : full) + s); };
      for (int z = 0; z < 3; z++) {
        int lo = 1 + rnd(top), hi = std::min(top, lo + (int) rnd(3)), kind = rnd(3);
        if (coin(20)) std::swap(lo, hi);
        std::string ds;
        styles.clear();
        struct S { bool empty, skip, clip; };
        std::map<int, S> ss;
        for (int l = 1; l <= 19; l++) {
          S s{true, false, false};
          auto put = [&](uint32_t k, const std::string &v) { styles[l].push_back(std::make_shared<StyleDeclaration>(k, v)); s.empty = false; };
          if (!coin(6)) {
            if (coin(3)) put(st.getId(other[rnd(2)]), "true");
            if (coin()) { bool t = coin(); put(clip, t ? "true" : other[2 + rnd(4)]); s.clip = t; }
            if (coin(3)) { bool t = coin(3); put(skip, t ? "true" : other[2 + rnd(4)]); s.skip = t; }
          }
          ss[l] = s;
          if (l >= lo && l <= hi) ds += fmt(" [%d:%s%s%s]", l, s.empty ? "empty" : "style", s.clip ? " clip" : "", s.skip ? " skip" : "");
        }
        saved.clear(); clipped.clear();
        Keys wsave, wclip;
        BoundingBox hull(GeoCoordinate(h.s[0], h.s[1]), GeoCoordinate(h.s[2], h.s[3]));
        bool ret = false;
        auto want = [&](int a, int b, const std::function<bool(const QuadKey &, const BoundingBox &)> &f) {
          for (int l = a; l <= b; l++) {
            if (ss[l].empty || ss[l].skip || !h.any) continue;
            GeoUtils::visitTileRange(hull, l, [&](const QuadKey &k, const BoundingBox &kb) { if (f(k, kb)) (ss[l].clip ? wclip : wsave).insert(k); });
          }
        };
        if (kind == 0) {
          want(lo, hi, [](const QuadKey &, const BoundingBox &) { return true; });
          describe(fmt(" store in levels %d-%d", lo, hi) + ds);
          ret = store.store(*e, LodRange(lo, hi), sp);
        } else if (kind == 1) {
          auto k = GeoUtils::GeoCoordinateToQuadKey(coin(4) ? GeoCoordinate(real(-85, 85), real(-179, 179)) : pt(), lo);
          if (coin(4)) { k.tileX = std::max(0, std::min((1 << lo) - 1, k.tileX + (int) rnd(3) - 1)); k.tileY = std::max(0, std::min((1 << lo) - 1, k.tileY + (int) rnd(3) - 1)); }
          want(lo, lo, [&](const QuadKey &c, const BoundingBox &) { return c == k; });
          describe(" store in tile " + q(k) + ds);
          ret = store.store(*e, k, sp);
        } else {
          GeoCoordinate a = pt(), b = coin(5) ? GeoCoordinate(real(-85, 85), real(-179, 179)) : pt();
          BoundingBox box(GeoCoordinate(std::min(a.latitude, b.latitude), std::min(a.longitude, b.longitude)), GeoCoordinate(std::max(a.latitude, b.latitude), std::max(a.longitude, b.longitude)));
          want(lo, hi, [&](const QuadKey &, const BoundingBox &) { return meets(h, box); });
          describe(fmt(" store in box %.17g,%.17g-%.17g,%.17g levels %d-%d", box.minPoint.latitude, box.minPoint.longitude, box.maxPoint.latitude, box.maxPoint.longitude, lo, hi) + ds);
          ret = store.store(*e, box, LodRange(lo, hi), sp);
        }
        nontrivial += wsave.size() + wclip.size() > 0;
        for (auto &k : saved) REQUIRE(wsave.count(k), "saved in tile " + q(k) + " where it must not be");
        for (auto &k : clipped) REQUIRE(wclip.count(k), "clipped for tile " + q(k) + " where it must not be");
        for (auto &k : wsave) REQUIRE(saved.count(k), "not saved in tile " + q(k));
        for (auto &k : wclip) REQUIRE(clipped.count(k), "not clipped for tile " + q(k));
        REQUIRE(ret == (saved.size() + clipped.size() > 0), fmt("result is %d", ret));
      }
    }
  }
  nftw(dir.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
  }
  return done();
}
