#include <cstdint>
#include "checked_cast.h"
#define TO(F) template signed char checked_cast<signed char, F>(F); template unsigned char checked_cast<unsigned char, F>(F); template short checked_cast<short, F>(F); template unsigned short checked_cast<unsigned short, F>(F); \
  template int checked_cast<int, F>(F); template unsigned checked_cast<unsigned, F>(F); template long checked_cast<long, F>(F); template unsigned long checked_cast<unsigned long, F>(F);
TO(signed char) TO(unsigned char) TO(short) TO(unsigned short) TO(int) TO(unsigned) TO(long) TO(unsigned long)
