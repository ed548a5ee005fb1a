// the members of the library templates that the headers declare extern
#include <string>
template class std::basic_string<char>;
