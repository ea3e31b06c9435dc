// Type-erased access to the types under test.
#pragma once
#include <functional>

#include "ref.hpp"
#include "ssz/ssz_container.hpp"

// Validator has no accessors: it is read through its serialization (view 0) or its YAML encoding (view 1).
inline thread_local int read_view = 0;

struct Ops {
    std::string name, cls;
    ref::DescP desc;
    std::uint64_t limit = 0;
    bool limited = false;
    std::size_t size = 0, align = 0;
    void (*ctor)(void *, std::uint64_t);        // default-initialised (with its limit)
    void (*ctor_value)(void *, std::uint64_t);  // T{} and limit() afterwards
    void (*ctor_bare)(void *, int) = nullptr;   // for types that take a limit: 0 without one, 1 with one of 0, 2 value-initialised without one
    void (*dtor)(void *);
    ssz::Container *(*base)(void *);
    void (*copy_ctor)(void *, const void *);
    void (*move_ctor)(void *, void *);
    void (*copy_assign)(void *, const void *);
    void (*move_assign)(void *, void *);
    void (*swap)(void *, void *);
    bool (*eq)(const void *, const void *);
    bool (*ne)(const void *, const void *);
    void (*set_limit)(void *, std::uint64_t);
    long (*count)(const void *);
    void (*as)(void *, const YAML::Node &) = nullptr;
    void (*hextext)(void *, const std::string &) = nullptr;
    std::string (*text)(const void *) = nullptr;
    std::string (*print)(const void *) = nullptr;
    std::vector<ssz::Chunk> (*tree)(const void *) = nullptr;
    void (*build)(void *, const ref::Val &, const ref::Desc &);
    bool (*read)(const void *, ref::Val &, const ref::Desc &);
    void (*edit)(void *, ref::Val &, const ref::Desc &, hc::Rng &);
    std::function<void(ref::Val &, hc::Rng &)> (*hold)(void *, const ref::Val &, const ref::Desc &, hc::Rng &);  // an edit through a reference acquired now
};
void reg_basic0(std::vector<Ops> &);
void reg_basic1(std::vector<Ops> &);
void reg_seq0(std::vector<Ops> &);
void reg_seq1(std::vector<Ops> &);
void reg_seq2(std::vector<Ops> &);
void reg_seq3(std::vector<Ops> &);
void reg_cont0(std::vector<Ops> &);
void reg_cont1(std::vector<Ops> &);
void reg_cont2(std::vector<Ops> &);
void reg_user0(std::vector<Ops> &);
void reg_user1(std::vector<Ops> &);
inline void reg_all(std::vector<Ops> &r) { for (auto f : {reg_basic0, reg_basic1, reg_seq0, reg_seq1, reg_seq2, reg_seq3, reg_cont0, reg_cont1, reg_cont2, reg_user0, reg_user1}) f(r); }
