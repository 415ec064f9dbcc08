#include "google/protobuf/descriptor.h"
