#include "xtr/logger.hpp"
void f(xtr::sink& s) { XTR_LOG(s, "x {}", 1); }
