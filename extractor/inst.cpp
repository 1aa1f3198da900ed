// explicit instantiations of the repository's class templates, so that every member function is exported
#include <string>
#include <istream>
#include "config.h"
#include "wrappedBuffer.hpp"
#include "optional.hpp"
#include "fifoMap.hpp"
#include "unicode.hpp"
#include "levenshtein.hpp"
#include "levenshteinMatrice.hpp"
template class WrappedBuffer<char, ERROR_HISTORY_LEN>;
template class Optional<bool>;
template class Optional<int>;
template class fifoMap<std::string, std::basic_istream<char> *>;
