#include "common.hpp"
#include "entities/Node.hpp"
#include "entities/Way.hpp"
#include "entities/Area.hpp"
#include "entities/Relation.hpp"
#include "index/ElementStream.hpp"
#include "index/MeshStream.hpp"
#include <sstream>
using namespace vf;
using namespace utymap::entities;
using namespace utymap::index;
typedef std::shared_ptr<Element> P;
static void tags(Element &e) {
  int n = coin(300) ? 65535 : coin(40) ? 300 + rnd(3000) : rnd(5);
  for (int i = 0; i < n; i++) e.tags.push_back(Tag((uint32_t) rnd(), coin() ? (uint32_t) rnd() : rnd(40)));
}
static double num() {
  static const double s[] = {0., -0., 1e-300, -180, 180, 90, -90, 1. / 3, 85.05112878, 1e300, 5e-324};
  return coin(4) ? s[rnd(11)] : real(-180, 180);
}
static void coords(std::vector<utymap::GeoCoordinate> &c) {
  int n = coin(300) ? 65535 : coin(40) ? 300 + rnd(3000) : rnd(6);
  for (int i = 0; i < n; i++) c.push_back(utymap::GeoCoordinate(num(), num()));
}
static uint64_t anyid() { return coin(3) ? rnd() : coin(3) ? ~0ull - rnd(5) : rnd(50); }
static P make(int depth) {
  int k = depth > 3 ? rnd(3) : rnd(4);
  P r;
  if (k == 0) { auto p = std::make_shared<Node>(); p->coordinate = utymap::GeoCoordinate(num(), num()); r = p; }
  else if (k == 1) { auto p = std::make_shared<Way>(); coords(p->coordinates); r = p; }
  else if (k == 2) { auto p = std::make_shared<Area>(); coords(p->coordinates); r = p; }
  else {
    auto p = std::make_shared<Relation>();
    int n = coin(60) ? 257 + rnd(400) : rnd(4);
    if (n > 10) for (int i = 0; i < n; i++) { auto q = std::make_shared<Node>(); q->coordinate = utymap::GeoCoordinate(num(), num()); q->id = anyid(); p->elements.push_back(q); }
    else for (int i = 0; i < n; i++) p->elements.push_back(make(depth + 1));
    r = p;
  }
  r->id = anyid();
  tags(*r);
  return r;
}
static bool beq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static std::string diff(const Element &a, const Element &b, bool id) {
  if (id && a.id != b.id) return fmt("id %llu instead of %llu", (unsigned long long) b.id, (unsigned long long) a.id);
  if (a.tags.size() != b.tags.size()) return fmt("%zu tags instead of %zu", b.tags.size(), a.tags.size());
  for (size_t i = 0; i < a.tags.size(); i++) if (a.tags[i].key != b.tags[i].key || a.tags[i].value != b.tags[i].value) return fmt("tag %zu differs", i);
  auto cs = [](const std::vector<utymap::GeoCoordinate> &x, const std::vector<utymap::GeoCoordinate> &y) -> std::string {
    if (x.size() != y.size()) return fmt("%zu coordinates instead of %zu", y.size(), x.size());
    for (size_t i = 0; i < x.size(); i++) if (!beq(x[i].latitude, y[i].latitude) || !beq(x[i].longitude, y[i].longitude)) return fmt("coordinate %zu differs", i);
    return "";
  };
  if (auto n = dynamic_cast<const Node *>(&a)) {
    auto m = dynamic_cast<const Node *>(&b);
    if (!m) return "not a node";
    return beq(n->coordinate.latitude, m->coordinate.latitude) && beq(n->coordinate.longitude, m->coordinate.longitude) ? "" : "coordinate differs";
  }
  if (auto n = dynamic_cast<const Way *>(&a)) { auto m = dynamic_cast<const Way *>(&b); return m ? cs(n->coordinates, m->coordinates) : "not a way"; }
  if (auto n = dynamic_cast<const Area *>(&a)) { auto m = dynamic_cast<const Area *>(&b); return m ? cs(n->coordinates, m->coordinates) : "not an area"; }
  auto n = dynamic_cast<const Relation *>(&a);
  auto m = dynamic_cast<const Relation *>(&b);
  if (!m) return "not a relation";
  if (n->elements.size() != m->elements.size()) return fmt("%zu members instead of %zu", m->elements.size(), n->elements.size());
  for (size_t i = 0; i < n->elements.size(); i++) {
    if (!m->elements[i]) return fmt("member %zu is null", i);
    std::string d = diff(*n->elements[i], *m->elements[i], true);
    if (!d.empty()) return fmt("member %zu: ", i) + d;
  }
  return "";
}
static std::string desc(const Element &e) {
  const char *k = dynamic_cast<const Node *>(&e) ? "node" : dynamic_cast<const Way *>(&e) ? "way" : dynamic_cast<const Area *>(&e) ? "area" : "relation";
  std::string s = fmt("%s(id=%llu tags=%zu", k, (unsigned long long) e.id, e.tags.size());
  if (auto w = dynamic_cast<const Way *>(&e)) s += fmt(" points=%zu", w->coordinates.size());
  if (auto w = dynamic_cast<const Area *>(&e)) s += fmt(" points=%zu", w->coordinates.size());
  if (auto r = dynamic_cast<const Relation *>(&e)) { s += fmt(" members=%zu:", r->elements.size()); for (size_t i = 0; i < r->elements.size() && i < 6; i++) s += " " + desc(*r->elements[i]); }
  return s + ")";
}
template<class T> static std::string vdiff(const char *n, const std::vector<T> &a, const std::vector<T> &b, bool f) {
  if (a.size() != b.size()) return fmt("%s: %zu values instead of %zu", n, b.size(), a.size());
  for (size_t i = 0; i < a.size(); i++) if (!(f ? (double) (float) a[i] == (double) b[i] : a[i] == b[i])) return fmt("%s[%zu] is %.17g, written %.17g", n, i, (double) b[i], (double) a[i]);
  return "";
}
int main(int argc, char **argv) {
  init(argc, argv);
  int it = 0;
  while (more()) {
    it++;
    {
      std::stringstream ss;
      int n = 1 + rnd(6);
      std::vector<P> es;
      std::vector<uint64_t> ids, at;
      std::string h = fmt("stream %d:", it);
      for (int i = 0; i < n; i++) { es.push_back(make(0)); h += " " + desc(*es.back()); }
      note(h);
      for (auto &e : es) { at.push_back(ss.tellp()); ElementStream::write(ss, *e); }
      std::string before = ss.str();
      for (int i = 0; i < n; i++) {
        uint64_t id = anyid();
        auto r = ElementStream::read(ss, id);
        REQUIRE(r != nullptr, fmt("record %d is null", i));
        REQUIRE(r->id == id, fmt("record %d: id given is not used", i));
        std::string d = diff(*es[i], *r, false);
        REQUIRE(d.empty(), fmt("record %d: ", i) + d);
        uint64_t want = i + 1 < n ? at[i + 1] : before.size();
        REQUIRE((uint64_t) ss.tellg() == want, fmt("record %d: reader stops at %ld instead of %ld", i, (long) ss.tellg(), (long) want));
        nontrivial++;
      }
      // in any order
      for (int q = 0; q < 3; q++) {
        int i = rnd(n);
        ss.clear();
        ss.seekg(at[i]);
        auto r = ElementStream::read(ss, 7);
        std::string d = diff(*es[i], *r, false);
        REQUIRE(d.empty(), fmt("record %d at its offset: ", i) + d);
      }
      REQUIRE(ss.str() == before, "reading changed the stream");
    }
    if (it % 4 == 0) {
      std::stringstream ss;
      char b;
      do b = (char) rnd(256); while ((b >= 0 && b <= 3) || (b >= 9 && b <= 13) || b == 32);
      ss << b << std::string(40, '\0');
      note(fmt("type byte %d", b));
      bool dom = false;
      try { ElementStream::read(ss, 1); } catch (const std::domain_error &) { dom = true; }
      REQUIRE(dom, "unknown type accepted");
    }
    {
      std::stringstream ss;
      int n = 1 + rnd(3);
      std::vector<std::unique_ptr<utymap::math::Mesh>> ms;
      std::string h = fmt("meshes %d:", it);
      for (int i = 0; i < n; i++) {
        std::string name;
        int l = coin(6) ? 0 : rnd(20);
        for (int k = 0; k < l; k++) name += coin(6) ? "\n\r\t \xff,"[rnd(6)] : (char) ('a' + rnd(26));
        ms.push_back(std::unique_ptr<utymap::math::Mesh>(new utymap::math::Mesh(name)));
        auto &m = *ms.back();
        auto sz = [&]() { return coin(100) ? 65530 + rnd(5000) : coin(4) ? 0 : rnd(30); };
        int a = sz(), b = sz(), c = sz(), d = sz(), e = sz();
        for (int k = 0; k < a; k++) m.vertices.push_back(coin(5) ? real(-1e9, 1e9) : real(-180, 180));
        for (int k = 0; k < b; k++) m.triangles.push_back(coin(5) ? (int) rnd() : rnd(1000));
        for (int k = 0; k < c; k++) m.colors.push_back((int) rnd());
        for (int k = 0; k < d; k++) m.uvs.push_back(real(-2, 2));
        for (int k = 0; k < e; k++) m.uvMap.push_back((int) rnd());
        h += fmt(" (name[%d] %d %d %d %d %d)", l, a, b, c, d, e);
      }
      note(h);
      for (auto &m : ms) MeshStream::write(ss, *m);
      for (int i = 0; i < n; i++) {
        auto r = MeshStream::read(ss);
        auto &m = *ms[i];
        REQUIRE(r.name == m.name, fmt("mesh %d: name differs", i));
        std::string d = vdiff("vertices", m.vertices, r.vertices, true) + vdiff("triangles", m.triangles, r.triangles, false) + vdiff("colors", m.colors, r.colors, false)
            + vdiff("uvs", m.uvs, r.uvs, true) + vdiff("uvMap", m.uvMap, r.uvMap, false);
        REQUIRE(d.empty(), fmt("mesh %d: ", i) + d);
        nontrivial++;
      }
    }
  }
  return done();
}
