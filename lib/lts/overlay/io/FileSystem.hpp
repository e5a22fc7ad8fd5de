#ifndef EDGE_IO_FILE_SYSTEM_HPP
#define EDGE_IO_FILE_SYSTEM_HPP
#include <string>
namespace edge { namespace io { struct FileSystem { template< typename... A > static void createDir( A const &... ) {} }; } }
#endif
