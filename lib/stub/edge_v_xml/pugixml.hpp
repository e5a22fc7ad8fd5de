// EDGE-V uses pugixml's header-only mode, the source for which isn't installed: the library is linked instead
#undef PUGIXML_HEADER_ONLY
#include_next <pugixml.hpp>
