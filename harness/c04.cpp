#include "common.hpp"
#include "utils/LruCache.hpp"
#include <deque>
using namespace vf;
struct P { int v; };
typedef utymap::utils::LruCache<int, P> Cache;
int main(int argc, char **argv) {
  init(argc, argv);
  while (more() && elapsed() < 30)
    for (int round = 0; round < 200; round++) {
      size_t cap = rnd(6);
      Cache c(cap);
      std::deque<std::pair<int, int>> ref;   // most recent first
      std::string h = fmt("capacity %d:", (int) cap);
      std::vector<std::pair<std::shared_ptr<P>, int>> held;
      int keys = 1 + rnd(8), steps = 1 + rnd(25);
      for (int i = 0; i < steps; i++) {
        int op = rnd(12), k = rnd(keys), v = rnd(1000);
        auto f = ref.begin();
        while (f != ref.end() && f->first != k) ++f;
        bool has = f != ref.end();
        const char *nm = op < 5 ? "put" : op < 7 ? "get" : op < 8 ? "peek" : op < 10 ? "promote" : op < 11 ? "exists" : "clear";
        h += op < 5 ? fmt(" put(%d,%d)", k, v) : fmt(" %s(%d)", nm, k);
        note(h);
        bool thrown = false;
        if (op < 5) {
          c.put(k, P{v});
          if (has) ref.erase(f);
          ref.push_front(std::make_pair(k, v));
          if (ref.size() > cap) ref.pop_back();
        } else if (op < 10) {
          try {
            if (op < 7) { auto p = c.get(k); REQUIRE(has && p->v == f->second, "get returns a wrong value"); held.push_back(std::make_pair(p, p->v)); }
            else if (op < 8) { auto p = c.peek(k); REQUIRE(has && p->v == f->second, "peek returns a wrong value"); }
            else c.promote(k);
            if (has && op != 7) { auto e = *f; ref.erase(f); ref.push_front(e); }
          } catch (const std::range_error &) { thrown = true; }
          REQUIRE(thrown == !has, "throws exactly for an absent key");
        } else if (op < 11) REQUIRE(c.exists(k) == has, "exists");
        else if (coin(3)) { c.clear(); ref.clear(); }
        REQUIRE(c.size() == ref.size(), fmt("size %d, expected %d", (int) c.size(), (int) ref.size()));
        REQUIRE(c.size() <= cap, "more entries than the capacity");
        for (int q = 0; q < keys; q++) {
          bool in = false; int val = 0;
          for (auto &e : ref) if (e.first == q) { in = true; val = e.second; }
          REQUIRE(c.exists(q) == in, fmt("after it key %d is %scached", q, in ? "not " : ""));
          if (in) REQUIRE(c.peek(q)->v == val, fmt("value of key %d", q));
        }
        for (auto &p : held) REQUIRE(p.first->v == p.second, "a value handed out changed");
        nontrivial++;
      }
    }
  return done();
}
