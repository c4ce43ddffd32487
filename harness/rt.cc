// Library code that is executed symbolically rather than natively.
#include <string>
template class std::basic_string<char>;
extern "C" { void* __dso_handle = 0; }
