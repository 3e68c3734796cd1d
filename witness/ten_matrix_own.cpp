//@@ peel
#define MATRIX TenMatrix
#include "duomatrix_own.cpp"
//@ d_*: include/qlpeps/two_dim_tn/framework/ten_matrix.h :: TenMatrix -- ownership: each element belongs to exactly one matrix and is released exactly once
