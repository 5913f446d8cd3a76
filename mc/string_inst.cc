// std::string's out-of-line members, instrumented: the C++ library's own copy would hide what they access.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
template class std::basic_string<char>;
