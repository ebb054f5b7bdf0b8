#include "kmlnet.h"
namespace kmlnet { std::map<std::string, Entries> g_intact; }
