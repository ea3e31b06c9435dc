// The hash tree's own hasher, chosen as the project's benchmarks choose it (CUSTOM_HASHER); here by the environment.
#include <cstdlib>
#include <string>

#include "ssz/hasher.hpp"
#include "ssz/hashtree.hpp"
static ssz::Hasher::IMPL chosen() {
    using I = ssz::Hasher::IMPL;
    const char *e = std::getenv("VERIF_IMPL");
    const std::string s = e ? e : "";
    return s == "SSE" ? I::SSE : s == "AVX" ? I::AVX : s == "AVX2" ? I::AVX2 : s == "SHA" ? I::SHA : I::NONE;
}
const auto ssz::HashTree::hasher = ssz::Hasher{chosen()};
