#include <text/json.h>
#include <lang/exception.h>
