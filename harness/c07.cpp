#include "common.hpp"
#include "entities/Node.hpp"
#include "index/BitmapIndex.hpp"
#include "index/StringTable.hpp"
#include "utils/GeoUtils.hpp"
#include "utils/CoreUtils.hpp"
#include <map>
#include <set>
#include <ftw.h>
#include <sys/stat.h>
using namespace vf;
using namespace utymap;
using namespace utymap::entities;
using namespace utymap::index;
using utymap::utils::GeoUtils;
typedef std::set<std::string> Terms;
static const std::string SEP = " _:;!@#$%^&*(){}[],.?`\\/\"'";
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static Terms terms(const std::string &s) {
  Terms r;
  std::string c;
  for (char ch : s + " ") {
    if (SEP.find(ch) != std::string::npos) { if (!c.empty()) r.insert(c); c.clear(); }
    else c += ch;
  }
  return r;
}
struct Less {
  bool operator()(const QuadKey &a, const QuadKey &b) const {
    return std::make_tuple(a.levelOfDetail, a.tileX, a.tileY) < std::make_tuple(b.levelOfDetail, b.tileX, b.tileY);
  }
};
struct Tile { BitmapIndex::Bitmap bitmap; std::vector<std::pair<uint32_t, Terms>> els; bool data = false; };
struct Visitor : ElementVisitor {
  void visitNode(const Node &) override {}
  void visitWay(const Way &) override {}
  void visitArea(const Area &) override {}
  void visitRelation(const Relation &) override {}
};
struct Index : BitmapIndex {
  explicit Index(const StringTable &t) : BitmapIndex(t) {}
  std::map<QuadKey, Tile, Less> tiles;
  std::vector<std::pair<QuadKey, uint32_t>> got;
  ElementVisitor *want = nullptr;
  void erase(const QuadKey &) override {}
 protected:
  void notify(const QuadKey &q, const uint32_t o, ElementVisitor &v) override {
    REQUIRE(&v == want, "another visitor is notified");
    got.push_back({q, o});
  }
  Bitmap &getBitmap(const QuadKey &q) override { return tiles[q].bitmap; }
  bool hasData(const QuadKey &q) const override { auto i = tiles.find(q); return i != tiles.end() && i->second.data; }
};
static const char *words[] = {"a", "b", "bar", "Bar", "name", "x1", "-", "caf\xc3\xa9", "amenity", "0", "a-b", "ab"};
static std::string text(int most, int range) {
  std::string s;
  int n = rnd(most + 1);
  if (coin(6)) s += SEP[rnd(SEP.size())];
  for (int i = 0; i < n; i++) {
    s += words[rnd(range)];
    do s += coin(3) ? SEP[rnd(SEP.size())] : ' '; while (coin(4));
  }
  if (!s.empty() && coin()) s.pop_back();
  return s;
}
static std::string q(const QuadKey &k) { return fmt("%d:%d:%d", k.levelOfDetail, k.tileX, k.tileY); }
int main(int argc, char **argv) {
  init(argc, argv);
  while (more()) {
    std::string dir = scratch + "/st" + std::to_string(cases) + "_" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    {
      StringTable st(dir + "/");
      for (int rounds = 0; rounds < 20 && more(); rounds++) {
        Index ix(st);
        int range = 2 + rnd(11);
        std::string txt;
        double lat = real(-70, 70), lon = real(-170, 170);
        int nt = 1 + rnd(3), lod0 = 1 + rnd(16);
        std::vector<QuadKey> ks;
        for (int i = 0; i < nt; i++) {
          auto k = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat + (i ? real(-1, 1) : 0), lon + (i ? real(-1, 1) : 0)), std::min(16, lod0 + (int) rnd(2)));
          ks.push_back(k);
          auto &t = ix.tiles[k];
          t.data = !coin(8);
        }
        int ne = coin(20) ? 100 + rnd(300) : rnd(9);
        for (int i = 0; i < ne; i++) {
          auto k = ks[rnd(ks.size())];
          auto &t = ix.tiles[k];
          Node n;
          Terms mine;
          uint32_t order = t.els.empty() ? (coin(8) ? rnd(200) : 0) : t.els.back().first + 1 + (coin(8) ? rnd(coin(5) ? 100000 : 70) : 0);
          std::string d;
          for (int j = rnd(4); j > 0; j--) {
            std::string a = text(2, range), b = text(3, range);
            n.tags.push_back(Tag(st.getId(a), st.getId(b)));
            for (auto &s : terms(a)) mine.insert(s);
            for (auto &s : terms(b)) mine.insert(s);
            d += "[" + a + "=" + b + "]";
          }
          txt += fmt(" add %u to %s %s;", order, q(k).c_str(), d.c_str());
          note(txt.size() > 3000 ? txt.substr(txt.size() - 3000) : txt);
          ix.add(n, k, order);
          t.els.push_back({order, mine});
        }
        for (int z = 0; z < 12; z++) {
          BitmapIndex::Query qu{coin() ? text(2, range) : "", coin() ? text(2, range) : "", coin() ? text(3, range) : "",
                                BoundingBox(GeoCoordinate(lat - real(0, 1), lon - real(0, 1)), GeoCoordinate(lat + real(0, 1), lon + real(0, 1))),
                                LodRange(std::max(1, lod0 - (int) rnd(2)), std::max(1, lod0 + (int) rnd(3) - (int) coin(9)))};
          // keep the number of visited tiles small
          int hi = qu.range.end;
          double w = 360. / (1 << hi);
          qu.boundingBox = BoundingBox(GeoCoordinate(lat - real(0, 1) * std::min(w * 3, .8), lon - real(0, 1) * std::min(w * 3, .8)),
                                       GeoCoordinate(lat + real(0, 1) * std::min(w * 3, .8), lon + real(0, 1) * std::min(w * 3, .8)));
          std::string d = fmt(" search not='%s' and='%s' or='%s' lod %d-%d box %.17g,%.17g-%.17g,%.17g", qu.notTerms.c_str(), qu.andTerms.c_str(), qu.orTerms.c_str(), qu.range.start, qu.range.end,
                              qu.boundingBox.minPoint.latitude, qu.boundingBox.minPoint.longitude, qu.boundingBox.maxPoint.latitude, qu.boundingBox.maxPoint.longitude);
          note((txt.size() > 3000 ? txt.substr(txt.size() - 3000) : txt) + d);
          auto na = terms(qu.notTerms), an = terms(qu.andTerms), orr = terms(qu.orTerms);
          std::map<QuadKey, std::set<uint32_t>, Less> want;
          for (int l = qu.range.start; l <= qu.range.end; l++)
            GeoUtils::visitTileRange(qu.boundingBox, l, [&](const QuadKey &k, const BoundingBox &) {
              auto i = ix.tiles.find(k);
              if (i == ix.tiles.end() || !i->second.data) return;
              for (auto &e : i->second.els) {
                bool all = true, any = orr.empty() && !an.empty(), none = true;
                for (auto &s : an) all = all && e.second.count(s);
                for (auto &s : orr) any = any || e.second.count(s);
                for (auto &s : na) none = none && !e.second.count(s);
                if (all && any && none) want[k].insert(e.first);
              }
            });
          ix.got.clear();
          Visitor v;
          ix.want = &v;
          ix.search(qu, v);
          std::map<QuadKey, std::set<uint32_t>, Less> got;
          for (auto &g : ix.got) {
            REQUIRE(got[g.first].insert(g.second).second, fmt("element %u of %s is reported twice", g.second, q(g.first).c_str()));
            REQUIRE(want[g.first].count(g.second), fmt("element %u of %s is reported and does not match", g.second, q(g.first).c_str()));
          }
          for (auto &w2 : want)
            for (auto o : w2.second) { nontrivial++; REQUIRE(got[w2.first].count(o), fmt("element %u of %s matches and is not reported", o, q(w2.first).c_str())); }
        }
      }
    }
    nftw(dir.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
  }
  return done();
}
