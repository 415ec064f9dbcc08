#include "antlr4-runtime/antlr4-runtime.h"
