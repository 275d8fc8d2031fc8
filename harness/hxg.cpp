// hx with the OpenMP runtime replaced
#define HX_GOMP
#include "hx.cpp"
