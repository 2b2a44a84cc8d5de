#define CHECK_JAC 1
#include "B01.cpp"
