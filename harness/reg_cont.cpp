#include "types.hpp"
using namespace ad;
template <class... T> static void conts(std::vector<Ops> &r) { (r.push_back(make<T>()), ...); }
using namespace eth;
// compiled in parts, to be built in parallel
#if PART == 0
void reg_cont0(std::vector<Ops> &r) { conts<Fork, ForkData, Checkpoint, SigningData, Validator, AttestationData, IndexedAttestation, PendingAttestation, Attestation, Eth1Data>(r); }
#elif PART == 1
void reg_cont1(std::vector<Ops> &r) { conts<DepositMessage, DepositData, Deposit, BeaconBlockHeader, SignedBeaconBlockHeader, ProposerSlashing, AttesterSlashing, VoluntaryExit, SignedVoluntaryExit>(r); }
#else
void reg_cont2(std::vector<Ops> &r) { conts<BeaconBlockBody, BeaconBlock, SignedBeaconBlock, BeaconState>(r); }
#endif
