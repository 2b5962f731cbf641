#include "generic.h"
