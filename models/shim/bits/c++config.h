// Emit the header templates of libstdc++ into the bitcode instead of relying on the shared library.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
