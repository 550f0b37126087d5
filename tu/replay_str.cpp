#include "str.cpp"
typedef char T; typedef bd::String OBJ; typedef bd::ArrayRef<char> AREF;
#include "replay_rca.h"
