#include "common.hpp"
#include "entities/Node.hpp"
#include "entities/Way.hpp"
#include "entities/Area.hpp"
#include "entities/Relation.hpp"
#include "index/StringTable.hpp"
#include "mapcss/StyleProvider.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
using namespace vf;
using namespace utymap;
using namespace utymap::entities;
using namespace utymap::index;
using namespace utymap::mapcss;
// Stand-in: no value is an expression.
namespace utymap { namespace mapcss {
std::unique_ptr<StyleEvaluator::Tree> StyleEvaluator::parse(const std::string &) { return nullptr; }
} }
static const char *kinds[] = {"node", "way", "area", "relation", "canvas", "element"};
static const char *ops[] = {"", "=", "!=", "<", ">"};
static const char *vals[] = {"1", "2", "10", "3.5", "x", "yes", "-1", "010", "9"};
static double num(const std::string &s) { return s == "x" || s == "yes" ? 0 : atof(s.c_str()); }
struct Want {
  std::map<std::string, std::string> m;
  std::set<std::string> builders;
  bool any = false;
  void put(const std::vector<Declaration> &ds) {
    any = true;
    for (auto &d : ds) { m[d.key] = d.value; if (d.key == "builder") builders.insert(d.value); }
  }
};
static void compare(const Style &s, const Want &w, StringTable &st, const std::string &what) {
  const char *keys[] = {"color", "height", "builder", "width", "other", "k1", "clip"};
  size_t n = 0;
  for (auto k : keys) {
    auto id = st.getId(k);
    auto it = w.m.find(k);
    REQUIRE(s.has(id) == (it != w.m.end()), what + ": the style has '" + k + "': " + (s.has(id) ? "yes" : "no"));
    if (it == w.m.end()) continue;
    n++;
    REQUIRE(s.get(id).value() == it->second && s.get(id).key() == id, what + ": the style has the value '" + s.get(id).value() + "' of '" + k + "', not '" + it->second + "'");
    REQUIRE(s.has(id, it->second) && !s.has(id, it->second + "?"), what + ": value of '" + std::string(k) + "' is not recognized");
    REQUIRE(s.getString(k) == it->second, what + ": string of '" + std::string(k) + "'");
  }
  REQUIRE(s.declarations().size() == n, what + ": the style has other declarations");
  REQUIRE(s.empty() == (n == 0), what + ": the style tells that it is empty wrongly");
  auto b = s.getBuilders();
  REQUIRE(std::set<std::string>(b.begin(), b.end()) == w.builders && b.size() == w.builders.size(), what + ": builders");
}
int main(int argc, char **argv) {
  init(argc, argv);
  auto stp = std::unique_ptr<StringTable>(new StringTable((scratch + "/").c_str()));
  StringTable &st = *stp;
  while (more()) {
    // words get their ids in different orders
    auto key = [&](int i) { static const char *names[] = {"k0", "k1", "id", "name"}; return std::string(names[i]); };
    StyleSheet sheet;
    std::string log;
    bool bad = false, badName = false;
    for (int r = rnd(6); r > 0; r--) {
      Rule rule;
      log += "rule ";
      for (int s = coin(4) ? rnd(4) : 1; s > 0; s--) {
        Selector sel;
        bool id = coin(4);
        if (id) {
          sel.names.push_back("element");
          sel.conditions.push_back(Condition{"id", "=", fmt("%d", (int) rnd(4))});
          log += "element[id=" + sel.conditions[0].value + "]";
        } else {
          for (int n = coin(4) ? 1 + rnd(3) : 1; n > 0; n--) { sel.names.push_back(kinds[rnd(5)]); log += sel.names.back() + ","; }
          for (int c = rnd(4); c > 0; c--) {
            sel.conditions.push_back(Condition{key(rnd(4)), ops[rnd(5)], vals[rnd(coin() ? 3 : 9)]});
            if (coin(200)) { sel.conditions.back().operation = coin() ? "=~" : "=="; bad = true; }
            log += "[" + sel.conditions.back().key + sel.conditions.back().operation + sel.conditions.back().value + "]";
          }
          if (coin(200)) { sel.names.back() = "nodes"; badName = true; }
        }
        sel.zoom.start = rnd(5); sel.zoom.end = sel.zoom.start + rnd(4);
        if (coin(20)) std::swap(sel.zoom.start, sel.zoom.end);
        log += fmt("|z%d-%d ", sel.zoom.start, sel.zoom.end);
        rule.selectors.push_back(sel);
      }
      log += "{";
      static const char *dk[] = {"color", "height", "builder", "width", "other", "clip"};
      for (int d = rnd(4); d > 0; d--) { rule.declarations.push_back(Declaration{dk[rnd(6)], fmt("v%d", (int) rnd(5))}); log += rule.declarations.back().key + ":" + rule.declarations.back().value + ";"; }
      log += "} ";
      sheet.rules.push_back(rule);
    }
    note(log);
    std::unique_ptr<StyleProvider> p;
    bool threw = false;
    try { p.reset(new StyleProvider(sheet, st)); } catch (const std::domain_error &) { threw = true; }
    REQUIRE(threw == (bad || badName), threw ? "a valid sheet is refused" : "an invalid sheet is accepted");
    if (threw) continue;
    for (int t = 0; t < 30; t++) {
      int lvl = rnd(7);
      if (coin(8)) {
        Want w;
        for (auto &r : sheet.rules) for (auto &s : r.selectors) for (auto &n : s.names) if (n == "canvas" && s.zoom.start <= lvl && lvl <= s.zoom.end) w.put(r.declarations);
        note(log + fmt("canvas at %d", lvl));
        compare(p->forCanvas(lvl), w, st, "canvas");
        compare(p->forCanvas(lvl), w, st, "canvas asked again");
        continue;
      }
      int kind = rnd(4);
      std::unique_ptr<Element> e(kind == 0 ? (Element *) new Node : kind == 1 ? (Element *) new Way : kind == 2 ? (Element *) new Area : (Element *) new Relation);
      e->id = rnd(6);
      std::map<std::string, std::string> tags;
      for (int i = rnd(6); i > 0; i--) tags[key(rnd(4))] = vals[rnd(coin() ? 3 : 9)];
      std::string what = fmt("%s %d at %d:", kinds[kind], (int) e->id, lvl);
      for (auto &kv : tags) { e->tags.push_back(Tag(st.getId(kv.first), st.getId(kv.second))); what += " " + kv.first + "=" + kv.second; }
      std::sort(e->tags.begin(), e->tags.end());
      note(log + what);
      Want w, byId;
      for (auto &r : sheet.rules)
        for (auto &s : r.selectors)
          for (auto &n : s.names) {
            if (lvl < s.zoom.start || lvl > s.zoom.end) continue;
            if (n == "element") {
              if (!byId.any && !r.declarations.empty() && atoi(s.conditions[0].value.c_str()) == (int) e->id) byId.put(r.declarations);
              continue;
            }
            if (n != kinds[kind]) continue;
            bool all = true;
            for (auto &c : s.conditions) {
              auto it = tags.find(c.key);
              bool ok = it != tags.end();
              if (ok && c.operation == "=") ok = it->second == c.value;
              if (ok && c.operation == "!=") ok = it->second != c.value;
              if (ok && c.operation == "<") ok = num(it->second) < num(c.value);
              if (ok && c.operation == ">") ok = num(it->second) > num(c.value);
              all = all && ok;
            }
            if (all) w.put(r.declarations);
          }
      if (byId.any) w = byId;
      if (w.any) nontrivial++;
      REQUIRE(p->hasStyle(*e, lvl) == w.any, "hasStyle tells wrongly whether a rule matches");
      compare(p->forElement(*e, lvl), w, st, "element");
    }
  }
  done();
}
