#pragma once
#include "hc.hpp"
void cmd_guided(const hc::Args &a);

extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*f)(const std::uint8_t *, std::size_t));
// Runs libFuzzer's engine; does not return
[[noreturn]] inline void drive(int (*one)(const std::uint8_t *, std::size_t), std::uint64_t runs, std::uint64_t seed, std::size_t max) {
    std::vector<std::string> args = {"guided", hc::fmt("-runs=%lu", runs), hc::fmt("-seed=%lu", seed % 1000000007 + 1), hc::fmt("-max_len=%zu", max), "-use_value_profile=1", "-detect_leaks=0", "-exact_artifact_path=/dev/null", "-verbosity=0", "-len_control=0", "-reload=0", "-timeout=0", "-rss_limit_mb=0", "-handle_int=0", "-handle_term=0"};
    std::vector<char *> av;
    for (auto &s : args) av.push_back(s.data());
    av.push_back(nullptr);
    int ac = int(args.size());
    char **v = av.data();
    LLVMFuzzerRunDriver(&ac, &v, one);
    std::exit(0);
}
