// Explicit instances of library templates that the library itself does not (fully) instantiate, so that
// their bodies are analysed for the types users instantiate them with. Never linked or run.
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "SMPTracker.h"
#include "SMPBunch.h"
#include "SMPComponentTracker.h"
#include "StdIntegrators.h"
#include "DataTable.h"
template class TBunchCMPTracker<ParticleTracking::ParticleBunch>;
template class TBunchCMPTracker<SMPTracking::SMPBunch>;
template class TTrnsProc<ParticleTracking::ParticleComponentTracker>;
template class TTrnsProc<SMPTracking::SMPComponentTracker>;
template class TTrackSim<ParticleTracking::ParticleComponentTracker>;
inline void inst_table(DataTable& t) { t.AddRow(1, 2.0, std::string()); }
