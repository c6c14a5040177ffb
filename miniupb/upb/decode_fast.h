#include "upb/decode.h"
