#ifndef EDGE_IO_OPTION_PARSER_H_
#define EDGE_IO_OPTION_PARSER_H_
#include <string>
#include "logging.h"
namespace edge { namespace io { struct OptionParser { OptionParser( int, char ** ) {} std::string getXmlPath() { return ""; } }; } }
#endif
