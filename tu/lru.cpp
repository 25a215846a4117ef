// Instantiates the cache template for the verifier.
#include "utils/LruCache.hpp"
namespace verif {
struct Payload { int v; };
}
template class utymap::utils::LruCache<int, verif::Payload>;
