// scripted ODE iterator used to drive the real Simulator::run
#pragma once
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include "spaceHub.hpp"
#include "mc.hpp"
namespace stub {
struct Ev {
    char kind;  // S start op, O op, T stop op, C stop condition, I iterate, P pre, Q post
    int id;
    double h, t;
    const void* who;
    long extra = 0;
};
inline std::vector<Ev> log_;
inline std::function<double(double h, double t, double& adv)> step_;  // returns the next step, sets the time advance
inline double atol_ = -1, rtol_ = -1;
inline size_t iters_ = 0;
struct TooLong {};
inline size_t limit_ = 100000;
struct Iter {
    template <typename P>
    typename P::Scalar iterate(P& p, typename P::Scalar h) {
        if (++iters_ > limit_) throw TooLong{};
        double adv = h;
        log_.push_back({'I', 0, h, p.time(), &p});
        double nx = step_(h, p.time(), adv);
        p.time() += adv;
        return nx;
    }
    void set_atol(double a) { atol_ = a; }
    void set_rtol(double r) { rtol_ = r; }
};
struct IterNoTol {
    template <typename P>
    typename P::Scalar iterate(P& p, typename P::Scalar h) { return Iter{}.iterate(p, h); }
};
using Base = hub::system::SimpleSystem<hub::particles::PointParticles<hub::Types<double>>, hub::DefaultForce>;
inline double scale_ = 1, scale0_ = 1;
struct Sys : Base {
    using Base::Base;
    using Base::Scalar;
    void pre_iter_process() { log_.push_back({'P', 0, 0, (double)this->time(), this}); Base::pre_iter_process(); }
    void post_iter_process() { log_.push_back({'Q', 0, 0, (double)this->time(), this}); Base::post_iter_process(); }
    Scalar step_scale() const { return scale_; }
};
// a regularised system has a regu_type
struct RSys : Sys {
    using Sys::Sys;
    static constexpr int regu_type = 1;
};
inline void reset() { log_.clear(); iters_ = 0; atol_ = rtol_ = -1; scale_ = 1; limit_ = 100000; }
}  // namespace stub
