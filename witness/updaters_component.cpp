//@@ flat
#include "updaters_common.h"
//@ wc_*: include/qlpeps/vmc_basic/wave_function_component.h :: TPSWaveFunctionComponent -- configuration, projected tensors and amplitude stay in step: construction, global replacement, local update, trials; validity test
static inline size_t K9(const Configuration &f) { size_t k = 0; for (size_t i = 0; i < 9; ++i) k = k * 8 + f.e_[i] % 8; return k; }
#define PF size_t a, size_t b, size_t c, int tag
#define CF a &= 3; b &= 3; c &= 3; ST ps; ps.dim = 4; Configuration f(3, 3); f({0, 0}) = a; f({1, 2}) = b; f({2, 1}) = c; BMPSTruncateParamsModel tp; tp.tag = tag
#define INSTEP(nm, w, cfg) REQF(nm, config, w.config({0, 0}) == cfg({0, 0}) && w.config({1, 2}) == cfg({1, 2}) && w.config({2, 1}) == cfg({2, 1}) && w.config({1, 1}) == cfg({1, 1})); \
  REQF(nm, tensors, w.tn({0, 0}).s == cfg({0, 0}) && w.tn({1, 2}).s == cfg({1, 2}) && w.tn({2, 1}).s == cfg({2, 1}) && w.tn({1, 1}).s == cfg({1, 1}) && w.tn({2, 1}).r == 2 && w.tn({2, 1}).c == 1)
#define FRESH(nm, w, cfg) INSTEP(nm, w, cfg); REQF(nm, amplitude, Same(w.amplitude, qlv_uf_amp(K9(cfg))) && Same(w.GetAmplitude(), w.amplitude)); REQF(nm, contractor, w.contractor.trunc == tag && w.contractor.calls >= 1)
OB(wc_make, PF) { CF; WF w(ps, f, tp); FRESH(wc_make, w, f); REQF(wc_make, init, w.contractor.inits == 1); }
OB(wc_make_trg, PF) { CF; WT w(ps, f, tp); FRESH(wc_make_trg, w, f); REQF(wc_make_trg, init, w.contractor.inits == 1); }
OB(wc_global, PF, size_t d) { CF; d &= 3; WF w(ps, f, tp); Configuration g(3, 3); g({0, 0}) = d; g({1, 2}) = a; g({1, 1}) = b; w.ReplaceGlobalConfig(ps, g); FRESH(wc_global, w, g); REQF(wc_global, init, w.contractor.inits == 2); }
OB(wc_random, PF) { CF; WF w(ps, f, tp); w.RandomInit(ps, std::qlv_vector<size_t>{5, 4}); Configuration g = f; g({0, 0}) = 1; FRESH(wc_random, w, g); REQF(wc_random, init, w.contractor.inits == 2); }
OBC(wc_unset, int tag) { BMPSTruncateParamsModel tp; tp.tag = tag; WF w(3, 3, tp); bool threw = false; try { w.EvaluateAmplitude(); } catch (...) { threw = true; } REQ(wc_unset, threw); }
OBC(wc_unset_empty, int tag) { BMPSTruncateParamsModel tp; tp.tag = tag; WT w(0, 0, tp); bool threw = false; try { w.EvaluateAmplitude(); } catch (...) { threw = true; } REQ(wc_unset_empty, threw); }
OB(wc_local1, PF, size_t d, double v) { CF; d &= 3; WF w(ps, f, tp); w.UpdateLocal(ps, v, std::make_pair(SiteIdx{1, 2}, d)); Configuration g = f; g({1, 2}) = d; INSTEP(wc_local1, w, g); REQF(wc_local1, amplitude, Same(w.amplitude, v)); REQF(wc_local1, envs, d == b || w.contractor.erased[5] >= 1); }
OB(wc_local3, PF, size_t d, size_t e, size_t h, double v) {
  CF; d &= 3; e &= 3; h &= 3; WF w(ps, f, tp); w.UpdateLocal(ps, v, std::make_pair(SiteIdx{1, 2}, d), std::make_pair(SiteIdx{0, 0}, e), std::make_pair(SiteIdx{2, 1}, h)); Configuration g = f; g({1, 2}) = d; g({0, 0}) = e; g({2, 1}) = h;
  INSTEP(wc_local3, w, g); REQF(wc_local3, amplitude, Same(w.amplitude, v)); REQF(wc_local3, envs, (d == b || w.contractor.erased[5] >= 1) && (e == a || w.contractor.erased[0] >= 1) && (h == c || w.contractor.erased[7] >= 1));
}
#define TRIAL std::qlv_vector<std::pair<SiteIdx, Tn>> rp{{SiteIdx{0, 0}, ps(SiteIdx{0, 0})[d]}, {SiteIdx{1, 2}, ps(SiteIdx{1, 2})[e]}}; std::qlv_vector<std::pair<SiteIdx, size_t>> nc{{SiteIdx{0, 0}, d}, {SiteIdx{1, 2}, e}}; auto t = w.BeginTrial(rp, nc); const double am = qlv_uf_amp2(0, 0, d, 1, 2, e, 7)
OB(wc_trial, PF, size_t d, size_t e) { CF; d &= 3; e &= 3; WT w(ps, f, tp); TRIAL; REQF(wc_trial, value, Same(t.amplitude, am)); FRESH(wc_trial, w, f); w.RejectTrial(std::move(t)); FRESH(wc_trial, w, f); REQF(wc_trial, none, w.contractor.commits == 0); }
OB(wc_accept, PF, size_t d, size_t e) { CF; d &= 3; e &= 3; WT w(ps, f, tp); TRIAL; w.AcceptTrial(std::move(t), ps); Configuration g = f; g({0, 0}) = d; g({1, 2}) = e; INSTEP(wc_accept, w, g); REQF(wc_accept, amplitude, Same(w.amplitude, am)); REQF(wc_accept, commit, w.contractor.commits == 1 && w.contractor.committed == (int)(1 + d * 4 + e)); }
struct Am { double amplitude; };
OB(wc_valid, double a, double lo, double hi) { Am w{a}; const double m = __builtin_fabs(a); const bool r = CheckWaveFunctionAmplitudeValidity(w, lo, hi); SPLIT(0, m > lo); SPLIT(1, m < hi); SPLIT(2, m == __builtin_inf()); REQ(wc_valid, r == (m > lo && m < hi && m != __builtin_inf())); }
OB(wc_legal, double a) { const double m = __builtin_fabs(a); SPLIT(0, m > __builtin_sqrt(__DBL_MIN__)); SPLIT(1, m < __builtin_sqrt(__DBL_MAX__)); WF w(3, 3, BMPSTruncateParamsModel()); w.amplitude = a; REQF(wc_legal, square, w.IsAmplitudeSquareLegal() == (m > __builtin_sqrt(__DBL_MIN__) && m < __builtin_sqrt(__DBL_MAX__))); REQF(wc_legal, zero, w.IsZero() == (a == 0)); }
