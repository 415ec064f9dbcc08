#include "re2/re2.h"
