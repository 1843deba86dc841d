/* Declarations of the AMD interface used by osqp (analysis stub). */
#ifndef AMD_H
#define AMD_H
#define AMD_INFO 20
int amd_order(int n, const int Ap[], const int Ai[], int P[], double Control[], double Info[]);
long long amd_l_order(long long n, const long long Ap[], const long long Ai[], long long P[], double Control[], double Info[]);
#define AMD_SYMMETRIC 3
#endif
