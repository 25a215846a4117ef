#include "stores.hpp"
#include "index/PersistentElementStore.hpp"
int main(int argc, char **argv) {
  init(argc, argv);
  while (more()) {
    std::string dir = scratch + "/st" + std::to_string(cases) + "_" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    {
      StringTable st(dir + "/");
      for (int i = 0; i < 4 && more(); i++) {
        std::string data = dir + "/data" + std::to_string(i);
        mkdir(data.c_str(), 0700);
        history(st, [&](bool open, const QuadKey &k) {
          if (!open) mkdir((data + "/" + std::to_string(k.levelOfDetail)).c_str(), 0700);
          return std::unique_ptr<ElementStore>(open ? new PersistentElementStore(data, st) : nullptr);
        }, true, 200);
      }
    }
    nftw(dir.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
  }
  return done();
}
