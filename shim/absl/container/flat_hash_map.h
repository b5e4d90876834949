#ifndef SHIM_ABSL_CONTAINER_flat_hash_map_H_
#define SHIM_ABSL_CONTAINER_flat_hash_map_H_
#include <unordered_map>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename V, typename H = Hash<K>, typename E = std::conditional_t<std::is_same_v<K, std::string>, std::equal_to<>, std::equal_to<K>>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
 public:
  using std::unordered_map<K, V, H, E>::unordered_map;
};
}  // namespace absl
#endif
