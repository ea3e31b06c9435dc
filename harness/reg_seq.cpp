#include "types.hpp"
using namespace ad;
template <class E, std::size_t... N> static void vecs(std::vector<Ops> &r) { (r.push_back(make<eth::VectorFixedSizedParts<E, N>>(0, "Vector")), ...); }
template <class E> static void lists(std::vector<Ops> &r, std::initializer_list<u64> ls) { for (auto l : ls) r.push_back(make<eth::ListFixedSizedParts<E>>(l, "ListFixed")); }
template <class E> static void vlists(std::vector<Ops> &r, std::initializer_list<u64> ls) { for (auto l : ls) r.push_back(make<eth::ListVariableSizedParts<E>>(l, "ListVariable")); }
#if PART == 0
void reg_seq0(std::vector<Ops> &r) {
    vecs<eth::Slot, 1, 2, 3, 4, 5, 8, 16, 33>(r);
    vecs<eth::Boolean, 1, 5, 32, 33, 65>(r);
}
#elif PART == 1
void reg_seq1(std::vector<Ops> &r) {
    vecs<eth::Bytes32, 1, 2, 3, 5, 33>(r);
    vecs<eth::Bytes4, 1, 5>(r);
    vecs<eth::Bytes48, 3>(r);
    vecs<eth::Checkpoint, 1, 2, 5>(r);
    vecs<eth::Validator, 2>(r);
}
#elif PART == 2
void reg_seq2(std::vector<Ops> &r) {
    lists<eth::Slot>(r, {1, 2, 3, 4, 5, 31, 32, 33, 1024, 1ull << 40, 1ull << 60});
    lists<eth::Boolean>(r, {1, 5, 32, 33, 100, 1ull << 40});
    lists<eth::Bytes32>(r, {1, 2, 3, 16, 1ull << 24});
    lists<eth::Bytes48>(r, {5});
    lists<eth::Checkpoint>(r, {1, 7});
    lists<eth::Validator>(r, {4, 1ull << 40});
    lists<eth::Deposit>(r, {16});
}
#else
void reg_seq3(std::vector<Ops> &r) {
    vlists<eth::Attestation>(r, {1, 5, 128});
    vlists<eth::AttesterSlashing>(r, {2});
    vlists<eth::IndexedAttestation>(r, {3});
    vlists<eth::PendingAttestation>(r, {4096});
    vlists<eth::BeaconBlockBody>(r, {3});
}
#endif
