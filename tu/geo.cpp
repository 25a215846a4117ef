// Instantiates the templates of the geo headers so that their bodies can be extracted. No code of its own.
#include "BoundingBox.hpp"
#include "LodRange.hpp"
#include "utils/GeoUtils.hpp"
#include <vector>
namespace verif {
struct TileVisitor { void operator()(const utymap::QuadKey &, const utymap::BoundingBox &) const; };
void geo_instances(utymap::BoundingBox &b, std::vector<utymap::GeoCoordinate> &v, const TileVisitor &t) {
  b.expand(v.begin(), v.end());
  b.expand(v.cbegin(), v.cend());
  utymap::utils::GeoUtils::visitTileRange(b, 1, t);
  utymap::utils::GeoUtils::isPointInPolygon(v[0], v.begin(), v.end());
}
}
