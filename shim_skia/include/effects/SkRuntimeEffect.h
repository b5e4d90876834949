#include "skia_fake.h"
