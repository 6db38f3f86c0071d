// force-included into instrumented code: the templates of libstdc++ (strings, streams) are instantiated here, and so
// instrumented, instead of being taken from libstdc++.so
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
