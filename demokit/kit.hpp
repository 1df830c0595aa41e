// the stub-free part of the hook interface
#include "simapi.h"
