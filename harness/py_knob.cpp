// Part of the library built for the Python package: lets a test put smaller pages in place of those of 8 MB.
#include "asmjit/asmjit.h"
extern "C" __attribute__((visibility("default"))) void verif_page(long n) { asmjit::CodeHolder::page_from() = n ? 8 << 20 : 0; asmjit::CodeHolder::page_to() = n; }
