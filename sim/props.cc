#include "props.h"
namespace dst {
const std::vector<PropertyDef>& Properties() {
  static const std::vector<PropertyDef> all = [] {
    std::vector<PropertyDef> v;
    for (const auto* l : {&SessionProperties(), &BatchProperties(), &MeshProperties(), &StrokeProperties()}) v.insert(v.end(), l->begin(), l->end());
    return v;
  }();
  return all;
}
}  // namespace dst
