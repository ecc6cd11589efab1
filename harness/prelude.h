/* forced include for verification builds: std::string members are instantiated from the headers
   (so that their real code is verified too) instead of being taken from libstdc++.so */
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
