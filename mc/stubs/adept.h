// A small stand-in for the Adept automatic differentiation library, which is not installed: only what the
// Walrasian market uses.  Values are those of the doubles computed with; derivatives come from a tape, in reverse.
#pragma once
#include <cmath>
#include <cstddef>
#include <ostream>
#include <utility>
#include <vector>
#define ADEPT_VERSION 200
namespace adept {
    struct tape_t
    {
        struct statement { size_t left; size_t n; size_t right[2]; double by[2]; };
        std::vector<statement> statements;
        std::vector<size_t> unused;
        size_t count = 0;
        int stacks = 0;
        bool paused = false;
        std::vector<double> gradients;
        size_t take() { if(unused.empty()) return count++; size_t i = unused.back(); unused.pop_back(); return i; }
        void give(size_t i) { unused.push_back(i); }
        void put(size_t l, size_t n, size_t r0 = 0, double b0 = 0, size_t r1 = 0, double b1 = 0)
        {
            if(stacks && !paused) statements.push_back({l, n, {r0, r1}, {b0, b1}});
        }
        void reverse()
        {
            gradients.resize(count, 0.);
            for(size_t k = statements.size(); k-- > 0;) {
                auto &s = statements[k];
                double g = gradients[s.left]; gradients[s.left] = 0.;
                for(size_t j = 0; j < s.n; ++j) gradients[s.right[j]] += g * s.by[j];
            }
        }
    };
    inline tape_t &tape() { static thread_local tape_t *t = new tape_t; return *t; }

    class adouble
    {
        double v; size_t i;
    public:
        adouble(double d = 0.): v(d), i(tape().take()) { tape().put(i, 0); }
        adouble(const adouble &o): v(o.v), i(tape().take()) { tape().put(i, 1, o.i, 1.); }
        adouble(double d, const adouble &a, double da): v(d), i(tape().take()) { tape().put(i, 1, a.i, da); }
        adouble(double d, const adouble &a, double da, const adouble &b, double db): v(d), i(tape().take()) { tape().put(i, 2, a.i, da, b.i, db); }
        ~adouble() { tape().give(i); }
        adouble &operator=(double d) { v = d; tape().put(i, 0); return *this; }
        adouble &operator=(const adouble &o) { v = o.v; if(&o != this) tape().put(i, 1, o.i, 1.); return *this; }
        double value() const { return v; }
        size_t index() const { return i; }
        void set_gradient(double g) { auto &t = tape(); t.gradients.assign(t.count, 0.); t.gradients[i] = g; }
        adouble &operator+=(const adouble &o) { return *this = adouble(v + o.v, *this, 1., o, 1.); }
        adouble &operator-=(const adouble &o) { return *this = adouble(v - o.v, *this, 1., o, -1.); }
        adouble &operator*=(const adouble &o) { return *this = adouble(v * o.v, *this, o.v, o, v); }
        adouble &operator/=(const adouble &o) { return *this = adouble(v / o.v, *this, 1. / o.v, o, -v / (o.v * o.v)); }
    };
    inline adouble operator+(const adouble &a, const adouble &b) { return adouble(a.value() + b.value(), a, 1., b, 1.); }
    inline adouble operator-(const adouble &a, const adouble &b) { return adouble(a.value() - b.value(), a, 1., b, -1.); }
    inline adouble operator*(const adouble &a, const adouble &b) { return adouble(a.value() * b.value(), a, b.value(), b, a.value()); }
    inline adouble operator/(const adouble &a, const adouble &b) { return adouble(a.value() / b.value(), a, 1. / b.value(), b, -a.value() / (b.value() * b.value())); }
    inline adouble operator-(const adouble &a) { return adouble(-a.value(), a, -1.); }
    inline adouble pow(const adouble &a, double e) { return adouble(std::pow(a.value(), e), a, e * std::pow(a.value(), e - 1)); }
    inline adouble exp(const adouble &a) { double e = std::exp(a.value()); return adouble(e, a, e); }
    inline adouble log(const adouble &a) { return adouble(std::log(a.value()), a, 1. / a.value()); }
    inline adouble abs(const adouble &a) { return adouble(std::abs(a.value()), a, a.value() < 0 ? -1. : 1.); }
    inline bool operator<(const adouble &a, const adouble &b) { return a.value() < b.value(); }
    inline bool operator>(const adouble &a, const adouble &b) { return a.value() > b.value(); }
    inline std::ostream &operator<<(std::ostream &o, const adouble &a) { return o << a.value(); }
    inline double value(const adouble &a) { return a.value(); }
    inline void get_gradients(const adouble *a, size_t n, double *out) { auto &t = tape(); t.gradients.resize(t.count, 0.); for(size_t k = 0; k < n; ++k) out[k] = t.gradients[a[k].index()]; }

    class Stack
    {
        std::vector<size_t> in, out;
    public:
        Stack() { auto &t = tape(); if(!t.stacks++) { t.statements.clear(); t.paused = false; } }
        Stack(const Stack &) = delete;
        ~Stack() { auto &t = tape(); if(!--t.stacks) t.statements.clear(); }
        void pause_recording() { tape().paused = true; }
        void continue_recording() { tape().paused = false; }
        void new_recording() { tape().statements.clear(); in.clear(); out.clear(); }
        void compute_adjoint() { tape().reverse(); }
        void independent(const adouble *a, size_t n) { for(size_t k = 0; k < n; ++k) in.push_back(a[k].index()); }
        void dependent(const adouble *a, size_t n) { for(size_t k = 0; k < n; ++k) out.push_back(a[k].index()); }
        // column by column: the dependent variables vary fastest
        void jacobian(double *j)
        {
            auto &t = tape();
            for(size_t o = 0; o < out.size(); ++o) {
                t.gradients.assign(t.count, 0.); t.gradients[out[o]] = 1.;
                t.reverse();
                for(size_t k = 0; k < in.size(); ++k) j[k * out.size() + o] = t.gradients[in[k]];
            }
        }
    };
}
