// Random histories of a geo store over several recording stores, against the same calls made on reference stores directly.
#include "stores.hpp"
#include "formats/osm/json/OsmJsonParser.hpp"
#include "formats/osm/xml/OsmXmlParser.hpp"
#include "index/GeoStore.hpp"
#include "shapefile/shapefil.h"
#include <fstream>
using namespace utymap::formats;
struct Item { int kind; std::uint64_t id; std::vector<GeoCoordinate> pts; Tags tags; };
static std::vector<Item> script;     // what the current file contains
static std::string path;             // its name
static CancellationToken *token;
static int cancelAt, fed;            // cancelled before this item
static std::string format;           // which parser ran
static BoundingBox bounds;
static void feed(OsmDataVisitor &v) {
  v.visitBounds(bounds);
  std::uint64_t id = 1000000;
  for (auto &it : script) {
    if (fed++ == cancelAt) token->cancel();
    if (it.kind == 0) { v.visitNode(it.id, it.pts[0], it.tags); continue; }
    std::vector<std::uint64_t> ids;
    Tags none;
    for (auto &p : it.pts) { auto q = p; v.visitNode(++id, q, none); ids.push_back(id); }
    v.visitWay(it.id, ids, it.tags);
  }
  if (fed == cancelAt) token->cancel();
}
static void same(std::istream &in) { std::string s; std::getline(in, s); REQUIRE(s == path, "another file is parsed: " + s); }
namespace utymap { namespace formats {
template<> void OsmXmlParser<OsmDataVisitor>::parse(std::istream &in, OsmDataVisitor &v) { format += "xml"; same(in); feed(v); }
template<> void OsmJsonParser<OsmDataVisitor>::parse(std::istream &in, OsmDataVisitor &v) const { format += "json"; same(in); feed(v); }
} }
// shapefile: one shape per item, one attribute
static double xs[64], ys[64];
static int parts[1] = {0};
extern "C" {
SHPHandle SHPOpen(const char *p, const char *) { REQUIRE(path == p, "another file is opened"); format += "shape"; return (SHPHandle) &path; }
void SHPGetInfo(SHPHandle, int *n, int *t, double *, double *) { *n = (int) script.size(); *t = SHPT_ARC; }
DBFHandle DBFOpen(const char *, const char *) { return (DBFHandle) &path; }
int DBFGetFieldCount(DBFHandle) { return 2; }
int DBFGetRecordCount(DBFHandle) { return (int) script.size(); }
SHPObject *SHPReadObject(SHPHandle, int k) {
  if (fed++ == cancelAt) token->cancel();
  static SHPObject s;
  s.nSHPType = script[k].kind == 0 ? SHPT_POINT : SHPT_ARC;
  s.nParts = 1;
  s.panPartStart = parts;
  s.nVertices = (int) script[k].pts.size();
  for (int i = 0; i < s.nVertices; i++) { xs[i] = script[k].pts[i].longitude; ys[i] = script[k].pts[i].latitude; }
  s.padfX = xs; s.padfY = ys;
  return &s;
}
void SHPDestroyObject(SHPObject *) {}
void DBFClose(DBFHandle) { if (fed == cancelAt) token->cancel(); }
void SHPClose(SHPHandle) {}
const char *SHPTypeName(int) { return ""; }
int DBFIsAttributeNULL(DBFHandle, int k, int f) { return f >= (int) script[k].tags.size(); }
DBFFieldType DBFGetFieldInfo(DBFHandle, int f, char *t, int *, int *) { strcpy(t, fmt("key%d", f).c_str()); return FTString; }
const char *DBFReadStringAttribute(DBFHandle, int k, int f) { return script[k].tags[f].value.c_str(); }
int DBFReadIntegerAttribute(DBFHandle, int, int) { return 0; }
double DBFReadDoubleAttribute(DBFHandle, int, int) { return 0; }
}
static std::string box(const BoundingBox &b) { return fmt("%g %g %g %g", b.minPoint.latitude, b.minPoint.longitude, b.maxPoint.latitude, b.maxPoint.longitude); }
static std::string lods(const LodRange &r) { return fmt("%d-%d", r.start, r.end); }
struct Recorder : ElementStore {
  std::map<QuadKey, std::vector<std::string>, Less> data;
  std::string calls;
  Recorder(StringTable &st) : ElementStore(st) {}
  void search(const std::string &n, const std::string &a, const std::string &o, const BoundingBox &b, const LodRange &r, ElementVisitor &v, const CancellationToken &c) override {
    calls += fmt("text(%s|%s|%s|%s|%s|%p|%p)", n.c_str(), a.c_str(), o.c_str(), box(b).c_str(), lods(r).c_str(), (void *) &v, (void *) &c);
  }
  void search(const QuadKey &k, ElementVisitor &v, const CancellationToken &c) override { calls += fmt("tile(%s|%p|%p)", q(k).c_str(), (void *) &v, (void *) &c); }
  bool hasData(const QuadKey &k) const override { return data.count(k); }
  void save(const Element &e, const QuadKey &k) override { data[k].push_back(print(e)); }
  void erase(const QuadKey &k) override { calls += "erase(" + q(k) + ")"; data.erase(k); }
  void erase(const BoundingBox &b, const LodRange &r) override { calls += "erase(" + box(b) + "|" + lods(r) + ")"; }
  std::string text() {
    std::string s = calls + "\n";
    for (auto &p : data) { s += q(p.first) + ":"; std::sort(p.second.begin(), p.second.end()); for (auto &t : p.second) s += " " + t; s += "\n"; }
    return s;
  }
};
namespace utymap { namespace mapcss {
StyleProvider::StyleProvider(const StyleSheet &, StringTable &) {}
} }
int main(int argc, char **argv) {
  init(argc, argv);
  std::string dir = scratch + "/gs" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  {
    StringTable st(dir + "/");
    table = &st;
    StyleSheet sheet;
    StyleProvider provider(sheet, st);
    while (more()) {
      GeoStore geo(st);
      std::vector<Recorder *> real, ref;
      std::vector<std::string> names;
      std::vector<std::unique_ptr<Recorder>> own;
      std::string log;
      for (int i = 0, n = rnd(5); i < n; i++) {
        std::string nm = fmt("%c%d", "azm"[rnd(3)], i);
        auto r = std::unique_ptr<Recorder>(new Recorder(st));
        real.push_back(r.get());
        names.push_back(nm);
        own.emplace_back(new Recorder(st));
        ref.push_back(own.back().get());
        geo.registerStore(nm, std::move(r));
      }
      clat = vf::real(-60, 60); clon = vf::real(-160, 160); size = coin() ? 2 : .05;
      int top = size > 1 ? 5 : 11;
      for (int step = 0; step < 8 && more(); step++) {
        int op = rnd(6);
        QuadKey k = GeoUtils::GeoCoordinateToQuadKey(pt(), 1 + rnd(top));
        auto p = pt();
        BoundingBox bb(GeoCoordinate(std::max(-85., p.latitude - vf::real(0, size)), p.longitude - vf::real(0, size)), p);
        int lo = 1 + rnd(top), hi = lo + rnd(3);
        LodRange range(lo, hi);
        if (op < 4 && !names.empty()) {
          int s = rnd(names.size());
          CancellationToken tk;
          script.clear();
          for (int i = 0, n = rnd(4); i < n; i++) {
            Item it;
            it.kind = rnd(3); it.id = op ? i + 1 : 0;
            for (int j = it.kind == 0 ? 1 : 2 + rnd(4); j > 0; j--) it.pts.push_back(pt());
            for (int j = 0; j < rnd(3); j++) it.tags.push_back(formats::Tag(fmt("key%d", j), words[rnd(10)]));
            script.push_back(it);
          }
          auto kind = rnd(3);
          static const char *starts[] = {"f", "f", "f", "json.", "a.xml", "xmljson", "pbf_", "shp.xml."};
          path = fmt("%s/%s%d.%s", dir.c_str(), starts[rnd(8)], rnd(3), kind == 0 ? "osm.xml" : kind == 1 ? "json" : "shp");
          { std::ofstream f(path); f << path << std::endl; }
          std::string want = kind == 0 ? "xml" : kind == 1 ? "json" : "shape";
          cancelAt = coin(3) ? rnd(script.size() + 1) : -1;
          fed = 0; format = ""; token = &tk; bounds = bb;
          log += fmt("add(%s, %s) op %d lod %d-%d tile %s box %s items %d cancelled at %d; ", names[s].c_str(), path.c_str(), op, lo, hi, q(k).c_str(), box(bb).c_str(), (int) script.size(), cancelAt);
          note(log);
          // reference: elements reach the named store in this order of kinds, nothing of OSM data once cancelled
          std::vector<std::shared_ptr<Element>> es;
          if (op == 0) {
            Saved sv; auto e = element(st, 5, sv, 0);
            ref[s]->store(*e, range, provider);
            geo.add(names[s], *e, range, provider, tk);
          } else {
            bool osm = kind < 2;
            for (size_t i = 0; i < script.size(); i++) {
              if (cancelAt >= 0 && (osm || (int) i >= cancelAt)) break;
              std::uint64_t id = 0;
              Tags none;
              CancellationToken never;
              OsmDataVisitor v(st, [&](Element &e) {
                if (osm && e.id > 1000000 && e.tags.empty()) return true;
                if (!osm) e.id = 0;
                return op == 1 ? ref[s]->store(e, k, provider) : op == 2 ? ref[s]->store(e, range, provider) : ref[s]->store(e, bb, range, provider); }, never);
              auto &it = script[i];
              if (it.kind == 0) v.visitNode(it.id, it.pts[0], it.tags);
              else {
                if (osm) { std::vector<std::uint64_t> ids; for (auto &c : it.pts) { auto c2 = c; v.visitNode(++id + 1000000, c2, none); ids.push_back(id + 1000000); } v.visitWay(it.id, ids, it.tags); }
                else { Way w; w.id = 0; w.coordinates = it.pts; utymap::utils::setTags(st, w, it.tags); op == 1 ? ref[s]->store(w, k, provider) : op == 2 ? ref[s]->store(w, range, provider) : ref[s]->store(w, bb, range, provider); }
              }
              v.complete();
            }
            if (osm && cancelAt < 0) { // the nodes of ways are elements too
              std::uint64_t id = 1000000;
              for (auto &it : script) if (it.kind) for (auto &c : it.pts) { Node n; n.id = ++id; n.coordinate = c; op == 1 ? ref[s]->store(n, k, provider) : op == 2 ? ref[s]->store(n, range, provider) : ref[s]->store(n, bb, range, provider); }
            }
            BoundingBox erased = op == 3 ? bb : BoundingBox();
            if (cancelAt >= 0) { if (op == 1) ref[s]->erase(k); else ref[s]->erase(erased, range); }
            if (op == 1) geo.add(names[s], path, k, provider, tk);
            else if (op == 2) geo.add(names[s], path, range, provider, tk);
            else geo.add(names[s], path, bb, range, provider, tk);
            REQUIRE(format == want, "the file was parsed as '" + format + "', not '" + want + "'");
          }
        } else {
          CancellationToken tk;
          Take v;
          if (op == 4) {
            std::string n = text(2, 5), a = text(2, 5), o = text(2, 5);
            log += "text search; ";
            for (auto r : ref) r->search(n, a, o, bb, range, v, tk);
            geo.search(n, a, o, bb, range, v, tk);
          } else {
            std::vector<QuadKey> ks{k};
            for (auto r : ref) for (auto &d : r->data) ks.push_back(d.first);
            k = ks[rnd(ks.size())];
            log += "search " + q(k) + "; ";
            bool any = false;
            for (auto r : ref) if (r->hasData(k)) { any = true; r->search(k, v, tk); }
            note(log);
            REQUIRE(geo.hasData(k) == any, std::string("hasData tells ") + (any ? "false" : "true"));
            geo.search(k, provider, v, tk);
          }
        }
        note(log);
        for (size_t i = 0; i < ref.size(); i++) {
          auto x = real[i]->text(), y = ref[i]->text();
          REQUIRE(x == y, "store " + names[i] + " has\n" + x.substr(0, 600) + "\ninstead of\n" + y.substr(0, 600));
          real[i]->calls = ref[i]->calls = "";
        }
        nontrivial++;
      }
    }
  }
  nftw(dir.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
  return done();
}
