#ifndef QDLDL_TYPES_H
#define QDLDL_TYPES_H
typedef long long QDLDL_int;
typedef double QDLDL_float;
typedef unsigned char QDLDL_bool;
#endif
