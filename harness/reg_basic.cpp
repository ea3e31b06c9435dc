#include "types.hpp"
using namespace ad;
template <std::size_t... N> static void bytes(std::vector<Ops> &r) { (r.push_back(make<eth::Bytes<N>>(0, "Bytes")), ...); }
template <unsigned... N> static void bitvecs(std::vector<Ops> &r) { (r.push_back(make<eth::Bitvector<N>>(0, "Bitvector")), ...); }
#if PART == 0
void reg_basic0(std::vector<Ops> &r) {
    r.push_back(make<eth::Slot>(0, "Slot"));
    r.push_back(make<eth::Boolean>(0, "Boolean"));
    bytes<1, 4, 8, 20, 31, 32, 33, 48, 64, 65, 96, 256>(r);
}
#else
void reg_basic1(std::vector<Ops> &r) {
    bitvecs<1, 2, 4, 7, 8, 9, 15, 16, 17, 64, 65, 255, 256, 257, 513>(r);
    for (u64 l : {1ull, 2ull, 7ull, 8ull, 9ull, 255ull, 256ull, 257ull, 512ull, 2048ull, 1ull << 20, 1ull << 40}) r.push_back(make<eth::Bitlist>(l, "Bitlist"));
}
#endif
