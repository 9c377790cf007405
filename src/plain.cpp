// The filter compiled with NOPAR and without OpenMP, as a shared object of its own (loaded by thr.cpp for C02).
#define NOPAR
#include "pair.hpp"

struct Plain {
    virtual ~Plain() {}
    virtual T::View step(const T::Op& op, const cf::LL& o) = 0;
};
namespace {
struct Impl : Plain {
    T::Tracker t;
    explicit Impl(const lmb::Params& p) : t(p) {}
    T::View step(const T::Op& op, const cf::LL& o) override { T::Scan z; T::Op p = op; p.kit.reset(); T::play<T::DetSensor>(t, p, o, z); return T::view(t, z); }
};
}
extern "C" __attribute__((visibility("default"))) Plain* make_plain(const void* params, size_t size) {
    if (size != sizeof(lmb::Params)) { abort(); }
    return new Impl(*static_cast<const lmb::Params*>(params));
}
