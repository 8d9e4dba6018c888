#include "vdf.h"
// the parallel prover is abstract: the smallest class that can be instantiated
class ProbeProver : public ParallelProver {
  public:
    ProbeProver(Segment segm, integer D) : ParallelProver(segm, D) {}
    form GetForm(uint64_t i); void start(); void stop(); bool PerformExtraStep(); void OnFinish();
};
// odr-use, so that the inline members are emitted
void use_callbacks(integer& D, form& f, Segment& sg, std::atomic<bool>& stop) {
    OneWesolowskiCallback* one = new OneWesolowskiCallback(D, f, 1);
    TwoWesolowskiCallback* two = new TwoWesolowskiCallback(D, f);
    FastAlgorithmCallback* fast = new FastAlgorithmCallback(1, D, f, true);
    two->GetPosition(1); two->IncreaseConstants(1); two->GetFormCopy(1);
    one->SetForm(0, nullptr, &f); fast->GetForm(1, 0); sg.IsWorseThan(sg); sg.GetSegmentBucket();
    OneWesolowskiProver p1(sg, D, nullptr, stop); TwoWesolowskiProver p2(sg, D, two, stop); InterruptableProver p3(sg, D, fast);
    FastStorage st(fast); st.GetFinishedSegment();
    ProbeProver* pp = new ProbeProver(sg, D); pp->ParallelProver::GenerateProof();
    integer D2 = D; std::atomic<bool> st2; ProveOneWesolowski(1, D2, f, one, st2); ProveTwoWeso(D2, f, 1, 0, two, 0, st2);
}
form ProbeProver::GetForm(uint64_t i) { return form(); }
void ProbeProver::start() {}
void ProbeProver::stop() {}
bool ProbeProver::PerformExtraStep() { return true; }
void ProbeProver::OnFinish() {}
