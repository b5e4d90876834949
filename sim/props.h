#ifndef DST_PROPS_H_
#define DST_PROPS_H_
#include <functional>

#include "core.h"
namespace dst {
const std::vector<PropertyDef>& SessionProperties();
const std::vector<PropertyDef>& BatchProperties();
const std::vector<PropertyDef>& MeshProperties();
const std::vector<PropertyDef>& StrokeProperties();
// Runs fn on a newly created thread and waits for it (exceptions are carried back).
void RunOnFreshThread(const std::function<void()>& fn);
}  // namespace dst
#endif
