// Scene building for the SofaCaribou monitors (the SOFA framework itself is the stand-in of shim/minisofa.h).
#pragma once
#include "ref.h"
#include "gmesh.h"
#include <SofaCaribou/config.h>
#include "../shim/minisofa.h"
namespace sc = sofa::core;
using sofa::core::sptr;
template <class T> using SData = sofa::core::objectmodel::Data<T>;
template <class T> static bool set_data(sofa::core::objectmodel::Base *b, const std::string &n, const T &v) {
    auto *d = dynamic_cast<SData<T> *>(b->findData(n)); if (!d) { fprintf(stderr, "@@HARNESS no data %s\n", n.c_str()); std::_Exit(3); } d->setValue(v); return true;
}
template <class T> static const T &get_data(sofa::core::objectmodel::Base *b, const std::string &n) {
    auto *d = dynamic_cast<SData<T> *>(b->findData(n)); if (!d) { fprintf(stderr, "@@HARNESS no data %s\n", n.c_str()); std::_Exit(3); } return d->getValue();
}
static void set_link(sofa::core::objectmodel::Base *b, const std::string &n, sofa::core::objectmodel::Base *o) {
    auto *l = b->findLink(n); if (!l || !l->set_object(o)) { fprintf(stderr, "@@HARNESS no link %s\n", n.c_str()); std::_Exit(3); }
}
// records additions in a dense matrix
struct DenseRecorder : sofa::defaulttype::BaseMatrix {
    using Index = sofa::SignedIndex; std::vector<double> a; int n = 0, m = 0;
    DenseRecorder(int r, int c) { resize(r, c); }
    Index rowSize() const override { return n; } Index colSize() const override { return m; } double element(Index i, Index j) const override { return a.at((size_t)i * m + j); }
    void resize(Index r, Index c) override { n = r; m = c; a.assign((size_t)r * c, 0.); } void clear() override { std::fill(a.begin(), a.end(), 0.); }
    void set(Index i, Index j, double v) override { if (i < 0 || j < 0 || i >= n || j >= m) { oob++; return; } a[(size_t)i * m + j] = v; } void add(Index i, Index j, double v) override { if (i < 0 || j < 0 || i >= n || j >= m) { oob++; return; } a[(size_t)i * m + j] += v; }
    int oob = 0;
};
using LM = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using LV = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using LM3 = Eigen::Matrix<LD, 3, 3>;
