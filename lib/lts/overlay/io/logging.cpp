#include "logging.h"
void edge::io::logging::config() {}
