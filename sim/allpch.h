#include "@REPO@/pch/pch.h"
#include <glm/glm.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/types/unordered_map.hpp>
#include <map>
#include <set>
#include <list>
#include <deque>
