#pragma once
#include <cstdlib>
struct OGRSpatialReference { int SetUTM(int,int){return 0;} int SetWellKnownGeogCS(const char*){return 0;} int exportToWkt(char** p){ *p=(char*)calloc(1,1); return 0;} };
inline void CPLFree(void* p) { free(p); }
