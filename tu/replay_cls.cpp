#define RCA_CLASS
#include "cls.cpp"
typedef A OBJ; typedef AR AREF;
#include "replay_rca.h"
