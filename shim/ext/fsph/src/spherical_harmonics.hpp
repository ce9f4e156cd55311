// Stand-in for the fsph submodule (absent here): orthonormal spherical harmonics WITHOUT the
// Condon-Shortley phase, in fsph's order m = 0, 1, .., l, -1, .., -l for every l, evaluated in
// double precision by the stable fully-normalised recurrence.
#ifndef VF_FSPH_STANDIN
#define VF_FSPH_STANDIN
#include <cmath>
#include <complex>
#include <cstddef>
#include <iterator>
#include <vector>

namespace fsph {

inline unsigned int sphCount(unsigned int lmax)
{
    return (lmax + 1) * (lmax + 2) / 2;
}

template<typename Real> class PointSPHEvaluator
{
public:
    class iterator
    {
    public:
        using iterator_category = std::forward_iterator_tag;
        using value_type = std::complex<Real>;
        using difference_type = std::ptrdiff_t;
        using pointer = const value_type*;
        using reference = value_type;

        iterator(const PointSPHEvaluator& e, unsigned int l, unsigned int m, bool full) : e(&e), l(l), m(m), full(full) {}
        bool operator==(const iterator& o) const
        {
            return l == o.l && m == o.m;
        }
        bool operator!=(const iterator& o) const
        {
            return !(*this == o);
        }
        iterator& operator++()
        {
            ++m;
            if (m > (full ? 2 * l : l))
            {
                ++l;
                m = 0;
            }
            return *this;
        }
        iterator operator++(int)
        {
            iterator r(*this);
            ++*this;
            return r;
        }
        value_type operator*() const
        {
            // m counts 0..l, then l+1..2l stand for -1..-l
            const unsigned int am = m > l ? m - l : m;
            const double p = e->legendre.at(l * (l + 1) / 2 + am);
            const std::complex<double> h = e->phase.at(am);
            return m > l ? value_type(Real(p * h.real()), Real(-p * h.imag())) : value_type(Real(p * h.real()), Real(p * h.imag()));
        }

    private:
        const PointSPHEvaluator* e;
        unsigned int l, m;
        bool full;
    };

    explicit PointSPHEvaluator(unsigned int lmax) : lmax(lmax), legendre(sphCount(lmax)), phase(lmax + 1) {}

    //! phi: polar angle in [0, pi]; theta: azimuth
    void compute(Real phi, Real theta)
    {
        const double c = std::cos(double(phi)), s = std::sin(double(phi));
        auto P = [&](unsigned int l, unsigned int m) -> double& { return legendre.at(l * (l + 1) / 2 + m); };
        P(0, 0) = std::sqrt(1.0 / (4.0 * M_PI));
        for (unsigned int m = 1; m <= lmax; ++m)
        {
            P(m, m) = P(m - 1, m - 1) * s * std::sqrt((2.0 * m + 1.0) / (2.0 * m));
        }
        for (unsigned int m = 0; m < lmax; ++m)
        {
            P(m + 1, m) = c * std::sqrt(2.0 * m + 3.0) * P(m, m);
            for (unsigned int l = m + 2; l <= lmax; ++l)
            {
                const double a = std::sqrt((4.0 * l * l - 1.0) / (double(l) * l - double(m) * m));
                const double b = std::sqrt(((l - 1.0) * (l - 1.0) - double(m) * m) / (4.0 * (l - 1.0) * (l - 1.0) - 1.0));
                P(l, m) = a * (c * P(l - 1, m) - b * P(l - 2, m));
            }
        }
        for (unsigned int m = 0; m <= lmax; ++m)
        {
            phase[m] = std::polar(1.0, double(m) * double(theta));
        }
    }

    iterator begin(bool full) const
    {
        return iterator(*this, 0, 0, full);
    }
    iterator begin_l(unsigned int l, unsigned int m, bool full) const
    {
        return iterator(*this, l, m, full);
    }
    iterator end() const
    {
        return iterator(*this, lmax + 1, 0, false);
    }

private:
    friend class iterator;
    unsigned int lmax;
    std::vector<double> legendre;
    std::vector<std::complex<double>> phase;
};

} // namespace fsph
#endif
