// Makes the compiler instantiate std::string in the (instrumented) code that uses it,
// instead of calling the uninstrumented copies in libstdc++.so.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
