#include "vdf.h"
// odr-use, so that the inline members are emitted
Proof use_manager(integer& D, FastStorage* fs, form& f, Segment& sg) {
    FastAlgorithmCallback* weso = new FastAlgorithmCallback(1, D, f, true);
    ProverManager* m = new ProverManager(D, weso, fs, 8, 1);
    sg.IsWorseThan(sg); sg.GetSegmentBucket();
    m->start(); m->stop(); return m->Prove(1);
}
