#include "qlv.h"
#include "qlpeps/optimizer/spike_detection.h"
using namespace qlpeps;
using namespace qlv;
static inline bool Eq(const char *a, const char *b) { return std::strcmp(a, b) == 0; }
//@ sig_known: include/qlpeps/optimizer/spike_detection.h :: SignalName -- every spike signal has a name of its own in the logs
OB(sig_known) {
  const SpikeSignal all[] = {SpikeSignal::kNone, SpikeSignal::kS1_ErrorbarSpike, SpikeSignal::kS2_GradientNormSpike,
                             SpikeSignal::kS3_NaturalGradientAnomaly, SpikeSignal::kS4_EMAEnergySpikeUpward};
  for (int i = 0; i < 5; ++i) {
    REQ(sig_known, SignalName(all[i]) != nullptr);
    REQ(sig_known, SignalName(all[i])[0] != '\0');
    REQ(sig_known, !Eq(SignalName(all[i]), "UNKNOWN"));
    for (int j = 0; j < i; ++j) { REQ(sig_known, !Eq(SignalName(all[i]), SignalName(all[j]))); }
  }
}
//@ act_known: include/qlpeps/optimizer/spike_detection.h :: ActionName -- every recovery action has a name of its own in the logs
OB(act_known) {
  const SpikeAction all[] = {SpikeAction::kAccept, SpikeAction::kResample, SpikeAction::kRollback, SpikeAction::kAcceptWithWarning};
  for (int i = 0; i < 4; ++i) {
    REQ(act_known, ActionName(all[i]) != nullptr);
    REQ(act_known, ActionName(all[i])[0] != '\0');
    REQ(act_known, !Eq(ActionName(all[i]), "UNKNOWN"));
    for (int j = 0; j < i; ++j) { REQ(act_known, !Eq(ActionName(all[i]), ActionName(all[j]))); }
  }
}
//@ sig_match: include/qlpeps/optimizer/spike_detection.h :: SignalName -- the name of signal Sk starts with "Sk" (documented S1..S4 labels)
OB(sig_match) {
  REQ(sig_match, SignalName(SpikeSignal::kS1_ErrorbarSpike)[0] == 'S' && SignalName(SpikeSignal::kS1_ErrorbarSpike)[1] == '1');
  REQ(sig_match, SignalName(SpikeSignal::kS2_GradientNormSpike)[0] == 'S' && SignalName(SpikeSignal::kS2_GradientNormSpike)[1] == '2');
  REQ(sig_match, SignalName(SpikeSignal::kS3_NaturalGradientAnomaly)[0] == 'S' && SignalName(SpikeSignal::kS3_NaturalGradientAnomaly)[1] == '3');
  REQ(sig_match, SignalName(SpikeSignal::kS4_EMAEnergySpikeUpward)[0] == 'S' && SignalName(SpikeSignal::kS4_EMAEnergySpikeUpward)[1] == '4');
}
//@ act_match: include/qlpeps/optimizer/spike_detection.h :: ActionName -- names are those the logs document
OB(act_match) {
  REQ(act_match, Eq(ActionName(SpikeAction::kAccept), "ACCEPT"));
  REQ(act_match, Eq(ActionName(SpikeAction::kResample), "RESAMPLE"));
  REQ(act_match, Eq(ActionName(SpikeAction::kRollback), "ROLLBACK"));
  REQ(act_match, Eq(ActionName(SpikeAction::kAcceptWithWarning), "ACCEPT_WARN"));
}
