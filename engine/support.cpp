// explicit instantiations: library templates that libstdc++ normally provides precompiled, compiled here so that they are instrumented
#include <string>
template class std::basic_string<char>;
