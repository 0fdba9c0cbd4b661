// std::string is instantiated (and so instrumented) in the harness and not in libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
