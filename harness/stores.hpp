// Random histories of an element store against a plain list of the elements saved in each tile.
#include "common.hpp"
#include "entities/Node.hpp"
#include "entities/Way.hpp"
#include "entities/Area.hpp"
#include "entities/Relation.hpp"
#include "index/ElementStore.hpp"
#include "index/StringTable.hpp"
#include "mapcss/StyleProvider.hpp"
#include "utils/GeoUtils.hpp"
#include <map>
#include <set>
#include <ftw.h>
#include <sys/stat.h>
using namespace vf;
using namespace utymap;
using namespace utymap::entities;
using namespace utymap::index;
using namespace utymap::mapcss;
using utymap::utils::GeoUtils;
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static StringTable *table; // if set, elements have a style which neither skips nor clips
namespace utymap { namespace mapcss { // not used by the functions under test
std::unique_ptr<StyleEvaluator::Tree> StyleEvaluator::parse(const std::string &) { return nullptr; }
class StyleProvider::StyleProviderImpl {};
StyleProvider::~StyleProvider() {}
Style StyleProvider::forElement(const Element &e, int) const { if (!table) abort(); static StyleDeclaration some(4000000000u, "x"); Style s(e.tags, *table); s.put(some); return s; }
} }
struct Less {
  bool operator()(const QuadKey &a, const QuadKey &b) const {
    return std::make_tuple(a.levelOfDetail, a.tileX, a.tileY) < std::make_tuple(b.levelOfDetail, b.tileX, b.tileY);
  }
};
static std::string q(const QuadKey &k) { return fmt("%d:%d:%d", k.levelOfDetail, k.tileX, k.tileY); }
typedef std::set<std::string> Terms;
static const std::string SEP = " _:;!@#$%^&*(){}[],.?`\\/\"'";
static Terms terms(const std::string &s) {
  Terms r;
  std::string c;
  for (char ch : s + " ") {
    if (SEP.find(ch) != std::string::npos) { if (!c.empty()) r.insert(c); c.clear(); }
    else c += ch;
  }
  return r;
}
static const char *words[] = {"a", "b", "bar", "Bar", "name", "x1", "amenity", "0", "ab", "street"};
static std::string text(int most, int range) {
  std::string s;
  for (int i = 0, n = rnd(most + 1); i < n; i++) {
    s += words[rnd(range)];
    s += coin(3) ? SEP[rnd(SEP.size())] : ' ';
  }
  if (!s.empty() && coin()) s.pop_back();
  return s;
}
struct Print : ElementVisitor { // what an element consists of
  std::string s;
  void head(const char *k, const Element &e) {
    s += fmt("%s#%llu{", k, (unsigned long long) e.id);
    for (auto &t : e.tags) s += fmt("%u=%u,", t.key, t.value);
    s += "}";
  }
  void pt(const GeoCoordinate &c) { s += fmt("(%a,%a)", c.latitude, c.longitude); }
  void visitNode(const Node &n) override { head("node", n); pt(n.coordinate); }
  void visitWay(const Way &n) override { head("way", n); for (auto &c : n.coordinates) pt(c); }
  void visitArea(const Area &n) override { head("area", n); for (auto &c : n.coordinates) pt(c); }
  void visitRelation(const Relation &n) override { head("relation", n); s += "["; for (auto &c : n.elements) c->accept(*this); s += "]"; }
};
static std::string print(const Element &e) { Print p; e.accept(p); return p.s; }
struct Take : ElementVisitor {
  std::vector<std::string> got;
  CancellationToken *token = nullptr;
  size_t stop = ~0ull;
  void take(const Element &e) { got.push_back(print(e)); if (got.size() == stop) token->cancel(); }
  void visitNode(const Node &n) override { take(n); }
  void visitWay(const Way &n) override { take(n); }
  void visitArea(const Area &n) override { take(n); }
  void visitRelation(const Relation &n) override { take(n); }
};
struct Hull { double s[4] = {1e9, 1e9, -1e9, -1e9};
  void add(const GeoCoordinate &c) { s[0] = std::min(s[0], c.latitude); s[1] = std::min(s[1], c.longitude); s[2] = std::max(s[2], c.latitude); s[3] = std::max(s[3], c.longitude); } };
struct Saved { std::string what; Terms terms; Hull hull; };
typedef std::map<QuadKey, std::vector<Saved>, Less> Oracle;
static double clat, clon, size;
static GeoCoordinate pt() { return GeoCoordinate(std::max(-85., std::min(85., clat + real(-size, size))), std::max(-179.9, std::min(179.9, clon + real(-size, size)))); }
static std::shared_ptr<Element> element(StringTable &st, int range, Saved &s, int depth) {
  int k = rnd(depth > 2 ? 3 : 4), n = coin(12) ? 0 : coin(60) ? 300 + rnd(700) : 1 + rnd(4);
  std::shared_ptr<Element> e;
  auto fill = [&](std::vector<GeoCoordinate> &cs) { for (int i = 0; i < n; i++) { cs.push_back(pt()); s.hull.add(cs.back()); } };
  if (k == 0) { auto p = std::make_shared<Node>(); p->coordinate = pt(); s.hull.add(p->coordinate); e = p; }
  else if (k == 1) { auto p = std::make_shared<Way>(); fill(p->coordinates); e = p; }
  else if (k == 2) { auto p = std::make_shared<Area>(); fill(p->coordinates); e = p; }
  else {
    auto p = std::make_shared<Relation>();
    n = std::min(n, 5);
    for (int i = 0; i < n; i++) p->elements.push_back(element(st, range, s, depth + 1));
    e = p;
  }
  e->id = coin() ? rnd() : rnd(50);
  for (int j = rnd(4); j > 0; j--) {
    std::string a = text(2, range), b = text(3, range);
    e->tags.push_back(Tag(st.getId(a), st.getId(b)));
    if (!depth) for (auto &x : {a, b}) for (auto &t : terms(x)) s.terms.insert(t);
  }
  return e;
}
template<class Make> static void history(StringTable &st, Make make, bool reopens, int rounds) {
  if (coin()) st.getId(words[rnd(2)]); // often the first string
  auto store = make(true, QuadKey());
  Oracle tiles;
  std::set<QuadKey, Less> all;
  static const double sizes[] = {40, 3, .3, .01};
  clat = real(-70, 70); clon = real(-170, 170); size = sizes[rnd(4)];
  int top = size > 30 ? 3 : size > 1 ? 6 : size > .1 ? 10 : 15, range = 2 + rnd(9);
  std::vector<QuadKey> ks;
  for (int i = 0, n = coin(3) ? 13 + rnd(8) : 1 + rnd(5); i < n; i++) ks.push_back(GeoUtils::GeoCoordinateToQuadKey(pt(), 1 + rnd(top)));
  for (auto &k : ks) make(false, k);
  std::string log;
  auto say = [&](const std::string &s) { log += s; note(log.size() > 3500 ? log.substr(log.size() - 3500) : log); };
  for (int step = 0; step < rounds && more(); step++) {
    auto k = ks[rnd(ks.size())];
    int op = rnd(14);
    if (op < 6) {
      Saved s;
      auto e = element(st, range, s, 0);
      s.what = print(*e);
      say(fmt(" save %.200s in %s;", s.what.c_str(), q(k).c_str()));
      store->save(*e, k);
      if (coin()) { e->tags.clear(); e->id = 77; } // the store keeps its own copy
      tiles[k].push_back(s);
    } else if (op < 9) {
      auto &w = tiles[k];
      CancellationToken token;
      Take v;
      v.token = &token;
      size_t want = w.size();
      if (coin(4)) { v.stop = rnd(w.size() + 2); if (!v.stop) token.cancel(); want = std::min(want, v.stop); }
      say(fmt(" search %s (cancelled after %zd);", q(k).c_str(), (ssize_t) v.stop));
      store->search(k, v, token);
      for (size_t i = 0; i < v.got.size() && i < want; i++)
        REQUIRE(v.got[i] == w[i].what, fmt("element %zu of %s is %.300s instead of %.300s", i, q(k).c_str(), v.got[i].c_str(), w[i].what.c_str()));
      REQUIRE(v.got.size() == want, fmt("%zu elements are reported for %s instead of %zu", v.got.size(), q(k).c_str(), want));
      nontrivial += want > 0;
      if (w.empty()) tiles.erase(k);
    } else if (op == 9) {
      say(fmt(" has data %s;", q(k).c_str()));
      REQUIRE(store->hasData(k) == (tiles.count(k) > 0), fmt("%s has %s", q(k).c_str(), tiles.count(k) ? "data which is denied" : "no data, which is claimed"));
    } else if (op == 10) {
      if (!coin(3)) continue;
      say(fmt(" erase %s;", q(k).c_str()));
      store->erase(k);
      tiles.erase(k);
    } else if (op == 11 && reopens) {
      say(" reopen;");
      store = nullptr;
      store = make(true, k);
    } else {
      int lo = std::max(1, k.levelOfDetail - (int) rnd(2)), hi = std::min(top, lo + (int) rnd(3));
      double w = std::min(size, 360. / (1 << hi) * 3);
      auto c = pt();
      BoundingBox box(GeoCoordinate(std::max(-85., c.latitude - real(0, w)), std::max(-179.9, c.longitude - real(0, w))), GeoCoordinate(std::min(85., c.latitude + real(0, w)), std::min(179.9, c.longitude + real(0, w))));
      std::string no = coin(3) ? text(1, range) : "", an = coin() ? text(2, range) : "", orr = coin() ? text(3, range) : "";
      say(fmt(" search not='%s' and='%s' or='%s' lod %d-%d box %.17g,%.17g-%.17g,%.17g;", no.c_str(), an.c_str(), orr.c_str(), lo, hi, box.minPoint.latitude, box.minPoint.longitude, box.maxPoint.latitude, box.maxPoint.longitude));
      auto nt = terms(no), at = terms(an), ot = terms(orr);
      std::multiset<std::string> want, got;
      for (int l = lo; l <= hi; l++)
        GeoUtils::visitTileRange(box, l, [&](const QuadKey &t, const BoundingBox &) {
          auto i = tiles.find(t);
          if (i == tiles.end()) return;
          for (auto &e : i->second) {
            bool all = true, any = ot.empty() && !at.empty(), none = true;
            for (auto &s : at) all = all && e.terms.count(s);
            for (auto &s : ot) any = any || e.terms.count(s);
            for (auto &s : nt) none = none && !e.terms.count(s);
            auto &h = e.hull.s;
            if (all && any && none && h[0] <= h[2] && h[0] <= box.maxPoint.latitude && box.minPoint.latitude <= h[2] && h[1] <= box.maxPoint.longitude && box.minPoint.longitude <= h[3]) want.insert(e.what);
          }
        });
      Take v;
      store->search(no, an, orr, box, LodRange(lo, hi), v, CancellationToken());
      for (auto &g : v.got) {
        got.insert(g);
        REQUIRE(want.count(g) >= got.count(g), fmt("reported and does not match (or reported too often): %.300s", g.c_str()));
      }
      nontrivial += !want.empty();
      for (auto &g : want) REQUIRE(want.count(g) == got.count(g), fmt("matches and is not reported: %.300s", g.c_str()));
    }
  }
}
