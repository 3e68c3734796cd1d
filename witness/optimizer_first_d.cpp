//@@ flat
#define QLV_D 2
#include "optimizer_first.h"
//@ ada_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::AdaGradUpdate -- every component of every site: G += |g|^2; theta -= eta g / (sqrt G regularised)
//@ adam_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::AdamUpdate -- every component of every site: bias-corrected moments with decoupled weight decay
#include "optimizer_first2.h"
