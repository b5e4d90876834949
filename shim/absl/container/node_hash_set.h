#ifndef SHIM_ABSL_CONTAINER_node_hash_set_H_
#define SHIM_ABSL_CONTAINER_node_hash_set_H_
#include <unordered_set>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename H = Hash<K>, typename E = std::conditional_t<std::is_same_v<K, std::string>, std::equal_to<>, std::equal_to<K>>>
class node_hash_set : public std::unordered_set<K, H, E> {
 public:
  using std::unordered_set<K, H, E>::unordered_set;
};
}  // namespace absl
#endif
