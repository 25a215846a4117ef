#include "stores.hpp"
#include "index/InMemoryElementStore.hpp"
int main(int argc, char **argv) {
  init(argc, argv);
  while (more()) {
    std::string dir = scratch + "/st" + std::to_string(cases) + "_" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    {
      StringTable st(dir + "/");
      for (int i = 0; i < 10 && more(); i++)
        history(st, [&](bool, const QuadKey &) { return std::unique_ptr<ElementStore>(new InMemoryElementStore(st)); }, false, 300);
    }
    nftw(dir.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
  }
  return done();
}
