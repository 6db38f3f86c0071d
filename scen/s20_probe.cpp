// Compiled only if s20.cpp is not: the macros used as plain statements. If this compiles, the macros do not work in
// the statement contexts of s20.cpp any more.
#include "lib.h"
void probe(bool c) {
   LOG(INFO) << 1;
   LOG_IF(INFO, c) << 1;
   LOGF(INFO, "%d", 1);
   LOGF_IF(INFO, c, "%d", 1);
   CHECK(c) << 1;
   CHECKF(c, "%d", 1);
   CHECK_F(c, "%d", 1);
}
SEQ_MAIN
