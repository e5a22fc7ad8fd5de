#include <pugixml.hpp>
