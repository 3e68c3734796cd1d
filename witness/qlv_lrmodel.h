// Token models used while analysing optimizer_params.h: a string is an identity token, a learning-rate
// scheduler is an identity token with Clone() (the scheduler classes themselves are decided in lr_laws.cpp).
#ifndef QLV_LRMODEL_H
#define QLV_LRMODEL_H
#include <string>
#include <sstream>
#include <memory>
#include <vector>
#include <variant>
#include <optional>
#include <iomanip>
#include <algorithm>
#include <stdexcept>
#include <numbers>
#include <limits>
#include <cmath>
#include "qlv_string.h"
#define string qlv_string
#define QLPEPS_OPTIMIZER_LR_SCHEDULERS_H
namespace qlpeps {
struct LearningRateScheduler {
  long kind;
  double p0, p1, p2;
  size_t n0;
  LearningRateScheduler(long k, double a, double b, double c, size_t n) : kind(k), p0(a), p1(b), p2(c), n0(n) {}
  std::unique_ptr<LearningRateScheduler> Clone() const { return std::make_unique<LearningRateScheduler>(*this); }
};
struct ConstantLR : LearningRateScheduler { explicit ConstantLR(double a) : LearningRateScheduler(1, a, 0, 0, 0) {} };
struct ExponentialDecayLR : LearningRateScheduler { ExponentialDecayLR(double a, double b, size_t n) : LearningRateScheduler(2, a, b, 0, n) {} };
struct StepLR : LearningRateScheduler { StepLR(double a, size_t n, double b = 0.1) : LearningRateScheduler(3, a, b, 0, n) {} };
struct PlateauLR : LearningRateScheduler { PlateauLR(double a, double b = 0.5, size_t n = 10, double c = 1e-4) : LearningRateScheduler(4, a, b, c, n) {} };
struct CosineAnnealingLR : LearningRateScheduler { CosineAnnealingLR(double a, size_t n, double b = 0.0) : LearningRateScheduler(5, a, b, 0, n) {} };
struct WarmupLR : LearningRateScheduler { WarmupLR(double a, size_t n, double b = 0.0) : LearningRateScheduler(6, a, b, 0, n) {} };
}  // namespace qlpeps
#endif
