#include "safe_btree_map.h"
