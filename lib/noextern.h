// Makes libstdc++'s stream templates part of the bitcode instead of leaving them to the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
