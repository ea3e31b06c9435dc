// C22: constants of the preset that was compiled in against the phase-0 specification, and the limits as behaviour shows them.
#include "types.hpp"
#include "ssz_util.hpp"

namespace {
template <class T> u64 num(const T &v) { return u64(v); }
u64 num(const eth::Slot &v) { return std::uint64_t(v); }
void eq(const char *name, u64 got, u64 want) {
    if (got != want) fail(std::string("preset:") + name, std::string(name) + fmt(" is %lu, should be %lu", got, want));
    stats.add("constants");
    stats.seen("constants", std::string(name));
}
template <class B> void bytes(const char *name, const B &b, const char *want) {
    auto s = hex(b.serialize());
    if (s != want) fail(std::string("preset:") + name, std::string(name) + " is " + s + ", should be " + want);
    stats.add("constants");
    stats.seen("constants", std::string(name));
}
#ifdef PRESET_MINIMAL
#define P(min, main) min
const char *PRESET = "minimal";
#else
#define P(min, main) main
const char *PRESET = "mainnet";
#endif
#define C(n, ...) eq(#n, num(constants::n), __VA_ARGS__)
void constants_table() {
    C(MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, P(64, 16384));
    C(MIN_GENESIS_TIME, P(1578009600, 1606824000));
    bytes("GENESIS_FORK_VERSION", constants::GENESIS_FORK_VERSION, P("00000001", "00000000"));
    C(GENESIS_DELAY, P(300, 604800));
    C(SECONDS_PER_SLOT, P(6, 12));
    C(SECONDS_PER_ETH1_BLOCK, 14);
    C(MIN_VALIDATOR_WITHDRAWABILITY_DELAY, 256);
    C(SHARD_COMMITTEE_PERIOD, P(64, 256));
    C(ETH1_FOLLOW_DISTANCE, P(16, 2048));
    C(EJECTION_BALANCE, 16000000000ull);
    C(MIN_PER_EPOCH_CHURN_LIMIT, 4);
    C(CHURN_LIMIT_QUOTIENT, 65536);
    C(DEPOSIT_CHAIN_ID, P(5, 1));
    C(DEPOSIT_NETWORK_ID, P(5, 1));
    bytes("DEPOSIT_CONTRACT_ADDRESS", constants::DEPOSIT_CONTRACT_ADDRESS, P("1234567890123456789012345678901234567890", "00000000219ab540356cbb839cbe05303d7705fa"));
    C(MAX_COMMITTEES_PER_SLOT, P(4, 64));
    C(TARGET_COMMITTEE_SIZE, P(4, 128));
    C(MAX_VALIDATORS_PER_COMMITTEE, 2048);
    C(SHUFFLE_ROUND_COUNT, P(10, 90));
    C(HYSTERESIS_QUOTIENT, 4);
    C(HYSTERESIS_DOWNWARD_MULTIPLIER, 1);
    C(HYSTERESIS_UPWARD_MULTIPLIER, 5);
    C(SAFE_SLOTS_TO_UPDATE_JUSTIFIED, P(2, 8));
    C(SLOTS_PER_EPOCH, P(8, 32));
    C(MIN_SEED_LOOKAHEAD, 1);
    C(MAX_SEED_LOOKAHEAD, 4);
    C(EPOCHS_PER_ETH1_VOTING_PERIOD, P(4, 64));
    C(SLOTS_PER_HISTORICAL_ROOT, P(64, 8192));
    C(MIN_EPOCHS_TO_INACTIVITY_PENALTY, 4);
    C(EPOCHS_PER_HISTORICAL_VECTOR, P(64, 65536));
    C(EPOCHS_PER_SLASHINGS_VECTOR, P(64, 8192));
    C(HISTORICAL_ROOTS_LIMIT, 16777216);
    C(VALIDATOR_REGISTRY_LIMIT, 1099511627776ull);
    C(BASE_REWARD_FACTOR, 64);
    C(WHISTLEBLOWER_REWARD_QUOTIENT, 512);
    C(PROPOSER_REWARD_QUOTIENT, 8);
    C(INACTIVITY_PENALTY_QUOTIENT, P(33554432, 67108864));
    C(MIN_SLASHING_PENALTY_QUOTIENT, P(64, 128));
    C(PROPORTIONAL_SLASHING_MULTIPLIER, P(2, 1));
    C(MAX_PROPOSER_SLASHINGS, 16);
    C(MAX_ATTESTER_SLASHINGS, 2);
    C(MAX_ATTESTATIONS, 128);
    C(MAX_DEPOSITS, 16);
    C(MAX_VOLUNTARY_EXITS, 16);
    C(GENESIS_SLOT, 0);
    C(GENESIS_EPOCH, 0);
    C(FAR_FUTURE_EPOCH, ~0ull);
    C(BASE_REWARDS_PER_EPOCH, 4);
    C(DEPOSIT_CONTRACT_TREE_DEPTH, 32);
    C(JUSTIFICATION_BITS_LENGTH, 4);
    C(MAX_EFFECTIVE_BALANCE, 32000000000ull);
    C(MIN_DEPOSIT_AMOUNT, 1000000000ull);
    C(EFFECTIVE_BALANCE_INCREMENT, 1000000000ull);
    C(MIN_ATTESTATION_INCLUSION_DELAY, 1);
    C(BYTES_PER_LENGTH_OFFSET, 4);
    C(BYTES_PER_CHUNK, 32);
    C(BITS_PER_BYTE, 8);
}
// Lists and bitlists anywhere in a type: path of field names, and how to set their length in a value
struct Lim { std::string path; std::vector<std::uint32_t> at; const Desc *d; };
void limits(const Desc &d, std::string path, std::vector<std::uint32_t> at, std::vector<Lim> &out) {
    if (d.kind == ref::LIST || d.kind == ref::BITLIST) out.push_back({path, at, &d});
    if (d.kind == ref::CONTAINER)
        for (std::size_t i = 0; i < d.fields.size(); ++i) { auto a = at; a.push_back(std::uint32_t(i)); limits(*d.fields[i].second, path + "." + d.fields[i].first, a, out); }
    if (d.kind == ref::LIST) { auto a = at; a.push_back(0); limits(*d.elem, path + "[0]", a, out); }  // its first element
    if (d.kind == ref::VECTOR) { auto a = at; a.push_back(0); limits(*d.elem, path + "[0]", a, out); }
}
// A value of zeros that has an element in every list on the way
Val *reach(const Desc &d, Val &v, const std::vector<std::uint32_t> &at) {
    const Desc *k = &d;
    Val *p = &v;
    for (auto i : at) {
        if (k->kind == ref::LIST && p->e.empty()) p->e.push_back(ref::zero(*k->elem));
        p = &p->e[i];
        k = k->kind == ref::CONTAINER ? k->fields[i].second.get() : k->elem.get();
    }
    return p;
}
void probe_type(const Ops &t, Rng &r, u64 max_elems) {
    const Desc &d = *t.desc;
    {
        Obj o(t);
        Val z = ref::zero(d);
        auto got = o.c().serialize().size(), want = ref::ser(d, z).size();
        eq((t.name + " default size").c_str(), got, want);
        if (!same_root(o.c().hash_tree_root(), ref::root(d, z))) fail("preset:root:" + t.name, t.name + ": the default value's root is not the specification's");
        stats.add("roots");
    }
    std::vector<Lim> ls;
    limits(d, t.name, {}, ls);
    for (auto &l : ls) {
        for (u64 n : {u64(0), u64(1), u64(5)}) {  // limits show in roots
            if (n > l.d->n) continue;
            Val v = ref::zero(d);
            Val *p = reach(d, v, l.at);
            if (l.d->kind == ref::LIST) p->e.assign(n, ref::zero(*l.d->elem)); else p->b.assign(n, 1);
            Obj o(t);
            crumbf("preset %s %s root with %lu", PRESET, l.path.c_str(), n);
            if (!o.deser(ref::ser(d, v))) fail("preset:refused:" + l.path, l.path + fmt(" with %lu elements is refused", n));
            auto h = o.c().hash_tree_root();
            if (!same_root(h, ref::root(d, v))) fail("preset:root:" + l.path, l.path + fmt(" with %lu elements (limit %lu): root %s, should be %s", n, l.d->n, rhex(h).c_str(), rhex(ref::root(d, v)).c_str()));
            stats.add("roots");
        }
        if (l.d->n > max_elems) { stats.add("limits_by_root_only"); continue; }
        for (int over = 0; over < 2; ++over) {  // and in what is accepted
            Val v = ref::zero(d);
            Val *p = reach(d, v, l.at);
            u64 n = l.d->n + u64(over) * (r.chance(1, 2) ? 1 : 1 + r.below(9));
            Val first = l.d->kind == ref::LIST ? (p->e.empty() ? ref::zero(*l.d->elem) : p->e[0]) : Val{};
            if (l.d->kind == ref::LIST) p->e.assign(n, first); else p->b.assign(n, 1);
            auto b = ref::ser(d, v);
            Obj o(t);
            crumbf("preset %s %s with %lu", PRESET, l.path.c_str(), n);
            bool ok = o.deser(b);
            if (ok == bool(over)) fail("preset:limit:" + l.path, l.path + fmt(" with %lu elements (limit %lu) is %s by deserialize()", n, l.d->n, ok ? "accepted" : "refused"));
            stats.add("acceptances");
            if (n * ref::size(l.d->kind == ref::LIST ? *l.d->elem : d) < 20000 || n < 300) {
                try { ok = o.c().decode(YAML::Load(ref::yaml(d, v, 1))); } catch (const std::exception &) { ok = false; }
                if (ok == bool(over)) fail("preset:limit:" + l.path, l.path + fmt(" with %lu elements (limit %lu) is %s by decode()", n, l.d->n, ok ? "accepted" : "refused"));
                stats.add("acceptances");
            }
            if (!over) {
                if (!o.deser(b) || !same_root(o.c().hash_tree_root(), ref::root(d, v))) fail("preset:root:" + l.path, l.path + fmt(" full (%lu elements): wrong root", n));
                stats.add("roots");
            }
        }
        stats.seen("limits", l.path);
    }
    stats.sample(std::string(PRESET) + " " + t.name + fmt(": %zu limits", ls.size()), 10);
}
}  // namespace

int main(int argc, char **argv) {
    Args a(argc, argv);
    ref::sha_selftest();
    reg_all(types);
    Rng r(mix(a.num("seed", 1), "presets"));
    constants_table();
    for (auto &t : types)
        if (t.desc->kind == ref::CONTAINER) { probe_type(t, r, a.num("max", 5000)); stats.add("types"); }
    // fixed sizes of the vectors
    auto &st = *std::find_if(types.begin(), types.end(), [](const Ops &t) { return t.name == "BeaconState"; });
    eth::BeaconState s;
    auto field = [&](const char *n) -> const Desc & { for (auto &f : st.desc->fields) if (f.first == n) return *f.second; broken(n); };
    eq("block_roots length", s.block_roots().size(), field("block_roots").n);
    eq("state_roots length", s.state_roots().size(), field("state_roots").n);
    eq("randao_mixes length", s.randao_mixes().size(), field("randao_mixes").n);
    eq("slashings length", s.slashings().size(), field("slashings").n);
    stats.add(std::string("preset_") + PRESET);
    stats.print();
    return 0;
}
