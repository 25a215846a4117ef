#include "common.hpp"
#include "index/StringTable.hpp"
#include "hashing/MurmurHash3.h"
#include <map>
#include <set>
#include <thread>
#include <unordered_map>
#include <sys/stat.h>
using namespace vf;
using utymap::index::StringTable;
static std::vector<std::pair<std::string, std::string>> coll;
static std::string word() {
  std::string s;
  int n = coin(12) ? 0 : coin(15) ? 200 + rnd(5000) : 1 + rnd(12);
  for (int i = 0; i < n; i++) s += coin(20) ? (char) (1 + rnd(255)) : "abc \n\t\rZ9"[rnd(9)];
  return s;
}
int main(int argc, char **argv) {
  init(argc, argv);
  {   // pairs of strings with the same hash
    std::unordered_map<uint32_t, std::string> seen;
    for (int i = 0; i < 300000; i++) {
      std::string s = "k" + std::to_string(i * 7919ull);
      uint32_t h;
      MurmurHash3_x86_32(s.data(), s.size(), 0, &h);
      auto r = seen.emplace(h, s);
      if (!r.second) coll.push_back(std::make_pair(r.first->second, s));
    }
  }
  int dirn = 0;
  while (more()) {
    std::string dir = scratch + "/t" + std::to_string(dirn++) + "/";
    mkdir(dir.c_str(), 0700);
    std::map<std::string, uint32_t> ids;
    std::vector<std::string> strs;
    std::string h;
    std::unique_ptr<StringTable> t(new StringTable(dir));
    bool big = dirn % 6 == 0;   // more strings than the cache holds
    int steps = big ? 3000 : 5 + rnd(60);
    std::vector<std::pair<std::shared_ptr<std::string>, std::string>> held;
    for (int i = 0; i < steps; i++) {
      int op = rnd(20);
      if (op < 10) {
        std::string s = big && !coin(4) ? "s" + std::to_string(i) : (!coll.empty() && coin(3)) ? (coin() ? coll[rnd(coll.size() < 4 ? coll.size() : 4)].first : coll[rnd(coll.size() < 4 ? coll.size() : 4)].second)
                        : !strs.empty() && coin(3) ? strs[rnd(strs.size())] : word();
        if (!big) h += " getId(" + (s.size() > 30 ? s.substr(0, 30) + "..." : s) + ")";
        note("history (seed " + std::to_string(dirn) + "):" + h);
        uint32_t id = t->getId(s);
        auto f = ids.find(s);
        if (f != ids.end()) REQUIRE(id == f->second, fmt("string got id %u, had %u", id, f->second));
        else {
          REQUIRE(id == strs.size(), fmt("new string got id %u, expected %u", id, (unsigned) strs.size()));
          ids[s] = id;
          strs.push_back(s);
          nontrivial++;
        }
      } else if (op < 18) {
        uint32_t id = strs.empty() || coin(6) ? strs.size() + rnd(3) : rnd(strs.size());
        if (!big) h += fmt(" getString(%u)", id);
        note("history (seed " + std::to_string(dirn) + "):" + h);
        auto p = t->getString(id);
        std::string want = id < strs.size() ? strs[id] : "";
        REQUIRE(*p == want, fmt("getString(%u) is '%.40s', expected '%.40s'", id, p->c_str(), want.c_str()));
        held.push_back(std::make_pair(p, want));
      } else if (op == 18 && coin(big ? 40 : 2)) {
        h += " reopen";
        note("history (seed " + std::to_string(dirn) + "):" + h);
        t.reset();
        t.reset(new StringTable(dir));
      }
    }
    note("final check of history (seed " + std::to_string(dirn) + "):" + h);
    t.reset();
    t.reset(new StringTable(dir));
    for (unsigned i = 0; i < strs.size(); i++) REQUIRE(*t->getString(i) == strs[i], fmt("after reopening, getString(%u)", i));
    for (unsigned i = 0; i < strs.size(); i++) REQUIRE(t->getId(strs[i]) == i, fmt("after reopening, getId of string %u", i));
    for (auto &p : held) REQUIRE(*p.first == p.second, "a string handed out changed");
    t.reset();
    if (dirn % 4 == 0) {   // concurrent use
      std::string d2 = scratch + "/c" + std::to_string(dirn) + "/";
      mkdir(d2.c_str(), 0700);
      note("4 threads calling getId/getString on one table");
      StringTable ct(d2);
      std::vector<std::thread> th;
      std::vector<std::map<std::string, uint32_t>> got(4);
      static volatile bool bad;
      bad = false;
      for (int k = 0; k < 4; k++) th.emplace_back([&, k] {
        for (int i = 0; i < 150; i++) {
          std::string s = "w" + std::to_string((i * (k + 1)) % 97);
          uint32_t id = ct.getId(s);
          got[k][s] = id;
          if (*ct.getString(id) != s) bad = true;
        }
      });
      for (auto &x : th) x.join();
      REQUIRE(!bad, "concurrent getString(getId(s)) differs from s");
      std::map<std::string, uint32_t> all;
      std::set<uint32_t> used;
      for (auto &m : got) for (auto &e : m) {
        auto r = all.insert(e);
        REQUIRE(r.first->second == e.second, "two threads got different ids for one string");
      }
      for (auto &e : all) REQUIRE(used.insert(e.second).second, "two strings share an id");
      remove((d2 + "string.idx").c_str()); remove((d2 + "string.dat").c_str()); rmdir(d2.c_str());
    }
    remove((dir + "string.idx").c_str()); remove((dir + "string.dat").c_str()); rmdir(dir.c_str());
  }
  return done();
}
