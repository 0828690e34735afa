// Included before everything else in the engine build: no externally
// instantiated library templates, so that their code becomes part of the IR.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "std.h"
