#include "arr.cpp"
typedef A OBJ; typedef AR AREF;
#include "replay_rca.h"
